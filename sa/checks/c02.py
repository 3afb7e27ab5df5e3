"""C02: hand-analysis answers do not depend on earlier questions."""
from ..lib import *
from ..recs import *
from ..effects import *
from ..waiting import *
from ..state import Old, OLD

RULE = ('Dependence analysis by abstract interpretation (path-insensitive after merges): one analyser is asked about hand A and, in the state '
        'that leaves behind, about hand B. Every value computed from A (its symbolic counts, and every condition decided while A was '
        'analysed) is marked; while B is analysed no branch may test a marked value and the answer may not contain one. All ordered pairs '
        'of public queries of each waiting calculator and of the win patterns are analysed, with hands that differ in every count, hands '
        'that differ in the red five alone, and equal hands asked with the other setting of the four-copies option.')

ASSUMPTIONS = ['searches are entered at most twice (four times with a single kind of tile) on one path',
               'the first query runs to its end before the second starts']

METHODS = ('match', 'win_selections', 'unique_win_selections')
HANDS = {
    'other hand': ('a', 'b', False),
    'hand that differs in the red five': ('a', 'b', True),
    'same hand, other option': ('b', 'b', True),
}


def run(rep):
    S = Session(rep, steps=6000000)
    jobs = []
    for pname, single in (('one pair left', False), ('one meld left', False), ('one unique pair left', False)):
        tail = pname + (', one kind of tile' if single else '')
        for cname, cref, methods in calculators(S):
            opt = {m: 'ignore_4counts' in ps for m, ps in methods}
            for m1 in opt:
                for m2 in opt:
                    for h in HANDS:
                        if h == 'same hand, other option' and not (opt[m1] and opt[m2]):
                            continue
                        if m1 != m2 and (pname != 'one pair left' or 'red' in h):
                            continue
                        jobs.append(('%s.%s after %s, %s, %s' % (cname, m2, m1, tail, h), cref, m1, m2, pname, single, h))
        for m1 in METHODS:
            for m2 in METHODS:
                jobs.append(('WinPattern.%s after %s, %s' % (m2, m1, tail), None, m1, m2, pname, single, 'other hand'))
    rep.parallel(jobs, lambda j: one(S, rep, *j))


def pair(S, st, w, h):
    na, nb, red_only = HANDS[h]
    a, b = S.new(st, S.g(C, 'TileSet')), S.new(st, S.g(C, 'TileSet'))
    put = lambda x, t, v: m_coll.dict_set(S.I, st, x, t, v, None)
    if not w.single:
        put(a, w.red, leaf(na + '0', 0, 1) if na != nb else leaf('b0', 2, 3))
        put(b, w.red, leaf('b0', 2, 3))
    if red_only:
        put(a, w.one, leaf('b1', 0, 3))
        put(b, w.one, leaf('b1', 0, 3))
    else:
        put(a, w.one, leaf('a1', 2, 3))
        put(b, w.one, leaf('b1', 0, 1))
    return a, b, ('a0', 'a1')


def marked(old, s, v, seen=None):
    """a marked value inside v, following the objects it holds"""
    seen = set() if seen is None else seen
    v = s.simp(v) if isinstance(v, V) else v
    if old(v):
        return v
    out = []
    refs_in(v, out)
    for oid in out:
        if oid in seen or not s.has(oid):
            continue
        seen.add(oid)
        o = s.get(oid)
        if o.kind in ('class', 'func', 'module', 'env'):
            continue
        d = o.data
        es = list(d) if type(d) is list else list(d.values()) if type(d) is dict else []
        for e in es:
            for part in (getattr(e, 'g', ()), getattr(e, 'v', None), getattr(e, 'k', None)):
                if part is None:
                    continue
                if isinstance(part, tuple):
                    if any(old(c) for c, _ in part):
                        return part
                else:
                    r = marked(old, s, part, seen)
                    if r is not None:
                        return r
        for x in o.attrs.values():
            if isinstance(x, V):
                r = marked(old, s, x, seen)
                if r is not None:
                    return r
    return None


class Stale(Exception):
    pass


def one(S, rep, nm, cref, m1, m2, pname, single, h):
    w = world(S, pname, single=single)
    st = w.st
    obj = w.pattern if cref is None else S.new(st, cref, w.pattern)
    a, b, names = pair(S, st, w, h)
    at = S.loc_of(S.I.class_attr(S.base, cref or st.get(w.pattern.oid).cls, m2))
    rec = 4 if single else 2
    k1, k2 = ({'ignore_4counts': FALSE}, {'ignore_4counts': TRUE}) if 'option' in h else ({}, {})
    o1 = S.run(lambda I, s: drain(I, s, I.call_method(s, obj, m1, [a], k1, None)), st, rec=rec, flat=True)
    if o1.st is None or o1.dead:
        return rep.undecided(nm, at, 'no path through the first query')
    old = Old(names)
    hit = []

    def watch(k, d):
        if k == 'branch' and not hit and old(d['cond']):
            hit.append(('a branch tests %s' % str(d['cond'])[:160], S.loc(d['node'])))
            raise Stale()
    OLD[0] = old
    try:
        o2 = S.run(lambda I, s: drain(I, s, I.call_method(s, obj, m2, [b], k2, None)), o1.st, listen=watch, rec=rec, flat=True)
    except Stale:
        rep.bad('%s does not depend on the earlier question' % nm, hit[0][1], '%s, which is left over from the earlier query' % hit[0][0])
        return
    finally:
        OLD[0] = None
    rep.count('pairs of queries interpreted')
    if o2.dead:
        return rep.undecided(nm, at, 'no path to an answer')
    r = marked(old, o2.st, o2.value)
    rep.decide(r is None, '%s does not depend on the earlier question' % nm, at, 'the answer contains %s, left over from the earlier query' % str(r)[:200])
