"""C01: analysing a hand never changes the hand or any shared tile data."""
from ..lib import *
from ..recs import *
from ..effects import *
from ..waiting import *
from ..interp import Budget

RULE = ('Effect analysis by abstract interpretation (path-insensitive after merges): each public query of each waiting calculator and win '
        'pattern is interpreted on a hand with symbolic counts, for small patterns, both settings of the four-copies option, recursion cut '
        'at two activations per search. Afterwards, and at every element a query hands out, the hand must hold the same count for every '
        'tile, and the list of all tiles, every tile and its pair, triplet and run, and the win pattern must be as they were. Order '
        'normalisation is interpreted too, so losing a count there is seen.')

ASSUMPTIONS = ['searches are entered at most twice on one path; deeper activations execute the same code on objects made by the shallower ones']


class Changed(Exception):
    """shared data is different at a point where the caller can observe it"""


def run(rep):
    S = Session(rep, steps=6000000)
    sort_keeps(S, rep)
    jobs = []
    worlds = [(p, False) for p in SMALL] + [(p, True) for p in LARGER]
    for pname, single in worlds:
        tail = pname + (', one kind of tile' if single else '')
        for cname, cref, methods in calculators(S):
            for m, params in methods:
                flags = [None] if 'ignore_4counts' not in params else [TRUE, FALSE]
                for fl in flags:
                    nm = '%s.%s, %s%s' % (cname, m, tail, '' if fl is None else ', option %s' % ('on' if fl == TRUE else 'off'))
                    jobs.append((nm, cref, m, pname, fl, single))
        for m in ('match', 'win_selections', 'unique_win_selections'):
            jobs.append(('WinPattern.%s, %s' % (m, tail), None, m, pname, None, single))
    rep.parallel(jobs, lambda j: one(S, rep, *j))


def sort_keeps(S, rep):
    """order normalisation keeps every count, zero and negative ones too"""
    with rep.group('re_sort'):
        w = world(S, lo=-3)
        m_coll.dict_set(S.I, w.st, w.hand, w.pool[-1], leaf('h2', -3, 4), None)
        st0 = w.st.copy()
        o = S.run(lambda I, s: I.call_method(s, w.hand, 're_sort', [], {}, None), w.st)
        r, why = unchanged(S, st0, o.st, w.hand.oid, True)
        rep.decide(None if o.dead else r, 'order normalisation keeps every count', S.loc_of(S.I.class_attr(S.base, S.g(C, 'TileSet'), 're_sort')), why)


def one(S, rep, nm, cref, m, pname, fl, single):
    w = world(S, pname, single=single)
    st = w.st
    obj = w.pattern if cref is None else S.new(st, cref, w.pattern)
    guarded_ = [w.hand, w.all, w.pattern] + w.pool + [w.red]
    prot = reach(st, guarded_)
    st0 = st.copy()
    eff = Effects(S, set(prot))
    bad = {}
    at = S.loc_of(S.I.class_attr(S.base, cref or st.get(w.pattern.oid).cls, m))

    def look(s, x=None):
        for oid in prot:
            if oid not in bad and s.get(oid) is not st0.get(oid):
                t = definitely_changed(S, st0, s, oid)
                if not t and oid in counters:
                    ks = new_keys(S, st0, s, oid)
                    if ks:
                        t = 'it lists %r, which it did not have' % (ks[0],)
                if t:
                    bad[oid] = t
    counters = {oid for oid in prot if is_counter(S, st0, st0.get(oid))}
    seen, restored = {}, set()

    def watch(k, d):
        """an object that is put back (order normalisation, backtracking) is not followed further: only what it is at the end counts"""
        eff(k, d)
        if k in ('yield', 'return') and d.get('st') is not None:
            for oid in eff.sites:
                if oid in restored:
                    continue
                t = d['st'].get(oid) is not st0.get(oid) and definitely_changed(S, st0, d['st'], oid)
                if t:
                    seen[oid] = t
                    if oid not in counters:
                        raise Changed(oid)
                elif oid in seen and unchanged(S, st0, d['st'], oid)[0] is True:
                    restored.add(oid)
                    del seen[oid]
    kw = {} if fl is None else {'ignore_4counts': fl}

    def go(I, s):
        r = I.call_method(s, obj, m, [w.hand], kw, None)
        return drain(I, s, r, look)
    try:
        o = S.run(go, st, listen=watch, rec=4 if single else 2, flat=True)
    except (Changed, Budget, TimeoutError, MemoryError):
        if not seen:
            raise
        for oid, t in seen.items():
            wh, chain = eff.where(oid)
            rep.bad('%s leaves shared data alone' % nm, wh or at, '%s while the search is under way; %s' % (t, chain))
        return
    rep.count('queries interpreted')
    rep.count('protected objects', len(prot))
    if o.st is not None:
        look(o.st)
    for e, s in S.exc(o):
        pass
    if bad:
        for oid, t in bad.items():
            wh, chain = eff.where(oid)
            what = 'the hand' if oid == w.hand.oid else 'the list of all tiles' if oid == w.all.oid else 'the win pattern' if oid == w.pattern.oid else 'shared tile data'
            rep.bad('%s leaves %s alone' % (nm, what), wh or at, '%s; %s' % (t, chain))
        return
    if o.dead:
        rep.undecided(nm, at, 'no path to an answer')
        return
    st_ok = True
    for oid in prot:
        if o.st.get(oid) is not st0.get(oid) and unchanged(S, st0, o.st, oid)[0] is None:
            if oid in seen:
                wh, chain = eff.where(oid)
                rep.bad('%s leaves shared data alone' % nm, wh or at, '%s; %s' % (seen[oid], chain))
                return
            st_ok = None
    rep.decide(st_ok, '%s leaves the hand and all shared tile data alone' % nm, at, 'content cannot be compared')
