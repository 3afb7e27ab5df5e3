"""C05: win patterns account exactly for the tiles they consume."""
from ..lib import *
from ..recs import *
from ..effects import *

RULE = ('Abstract interpretation of the win patterns with a symbolic number of pairs and melds left (0..7 and 0..5): for every tile each offered '
        'group and the pattern it continues with are kept under their condition, and group size, needed tiles, needed groups and largest '
        'group are compared as gated affine expressions over the two symbolic counts; completeness is compared with the two needs; for seven '
        'pairs the continuation is asked again for the same tile and must offer nothing.')

W = 'mahjong.container.pattern.win'
D = 'mahjong.tile.definition'


def tiles():
    for c in 'mps':
        for n in range(10):
            yield n, c
    for n in range(1, 8):
        yield n, 'z'


def ask(S, st, pat, m, *args):
    o = S.run(lambda I, s: I.call_method(s, pat, m, list(args), {}, None), st.copy())
    return o


def total(S, st, unit):
    """number of tiles of a group as a value"""
    if type(unit) is not Ref or type(st.get(unit.oid).data) is not dict:
        return None
    w = Const(0)
    for e in st.get(unit.oid).data.values():
        w = n_add(w, guarded(e.g, st.simp(e.v), Const(0)))
    return w


def run(rep):
    S = Session(rep)
    Base = S.g(W, 'WinPattern')
    Tile, Aka = S.g(D, 'Tile'), S.g(D, 'AkaTile')
    p, m = leaf('pairs', 0, 7), leaf('melds', 0, 5)
    Normal, Unique = S.g(W, 'NormalTypeWin'), S.g(W, 'UniquePairs')
    st = S.state()
    T = {t: S.new(st, Aka if t[0] == 0 else Tile, Const(t[0]), Const(t[1])) for t in tiles()}
    with rep.group('patterns'):
        shapes = [
            ('NormalTypeWin', Normal, lambda s: S.new(s, Normal, pairs=p, melds=m)),
            ('UniquePairs', Unique, lambda s: S.new(s, Unique, pairs=p)),
            ('UniquePairs with tiles used', Unique, lambda s: S.new(s, Unique, pairs=p, used=used(S, s, [T[x] for x in USED['UniquePairs with tiles used']]))),
            ('UniquePairs with eight tiles used', Unique, lambda s: S.new(s, Unique, pairs=p, used=used(S, s, [T[x] for x in USED['UniquePairs with eight tiles used']]))),
        ]
    for name, cref, mk in shapes:
        with rep.group(name):
            pattern(S, rep, st, T, name, cref, mk)
    others = [n for _, n, c in subclasses(S, Base) if c not in (Normal, Unique)]
    if others:
        rep.notes.append('further pattern classes not analysed: %s' % ', '.join(others))
    with rep.group('starting patterns'):
        for nm, cref, units in (('NormalTypeWin()', Normal, 5), ('UniquePairs()', Unique, 7)):
            o = S.run(lambda I, s: S.new(s, cref), st.copy())
            for meth, want in (('need_count', 14), ('need_units', units)):
                q = ask(S, o.st, o.value, meth)
                rep.decide(same_value(q.value, Const(want)) if not q.dead else False, '%s of a fresh %s' % (meth, nm), where(S, cref, meth), 'is %r' % (q.value,))


USED = {
    'UniquePairs with tiles used': [(1, 'm'), (5, 'p'), (7, 'z')],
    'UniquePairs with eight tiles used': [(n, 's') for n in range(1, 9)],
}


def fives(name):
    """the tiles used, a red five with its five"""
    u = USED.get(name, [])
    return u + [(0, c) for n, c in u if n == 5 and c != 'z']


def used(S, s, ts):
    return S.I.call(s, Bi('set'), [S.I.new_list(s, ts)], {}, None)


def where(S, cref, meth):
    v = S.I.class_attr(S.base, cref, meth)
    return S.loc_of(v) if type(v) is Ref else S.where_class(cref)


def pattern(S, rep, st, T, name, cref, mk):
    o = S.run(lambda I, s: mk(s), st.copy())
    if o.dead:
        rep.bad('%s can be made' % name, S.where_class(cref), 'raises %s' % [n for n, _ in S.exc(o)])
        return
    st, pat = o.st, o.value

    def num(s, x, meth):
        q = ask(S, s, x, meth)
        return None if q.dead else q.value
    need, units, biggest, win = (num(st, pat, x) for x in ('need_count', 'need_units', 'max_unit_length', 'has_win'))
    with rep.group('%s completeness' % name):
        t = S.run(lambda I, s: I.call(s, Bi('bool'), [win], {}, None), st.copy()).value
        for meth, v in (('need_count', need), ('need_units', units)):
            zero = n_eq(v, Const(0))
            rep.decide(same_value(t, zero), '%s is complete exactly when %s is zero' % (name, meth), where(S, cref, 'has_win'), 'complete: %r, %s: %r' % (t, meth, v))
    kept = set(reach(st, [pat] + list(T.values())))
    for tl, tv in T.items():
        nm = '%s offered %d%s' % ((name,) + tl)
        with rep.group(nm):
            at = where(S, cref, 'next_states')
            eff = Effects(S, kept)
            o = S.run(lambda I, s: drain(I, s, I.call_method(s, pat, 'next_states', [tv], {}, None)), st.copy(), listen=eff)
            rep.count('pattern and tile pairs')
            if o.dead:
                rep.bad(nm, at, 'raises %s' % [n for n, _ in S.exc(o)])
                continue
            offers = elements(S, o.st, o.value) if o.value != NONE else []
            if offers is None:
                rep.undecided(nm, at, 'offers unknown')
                continue
            for x in kept:
                r, why = unchanged(S, st, o.st, x)
                if r is not True:
                    w, chain = eff.where(x)
                    rep.decide(r, nm + ' leaves the pattern and the tiles alone', w or at, why)
            for lits, pair, many in offers:
                rep.count('offered groups')
                q = under(o.st, lits)
                if q is None:
                    continue
                if type(pair) is not Tup or len(pair.items) != 2:
                    rep.decide(None, nm, at, 'offer %r' % (pair,))
                    continue
                offer(S, rep, nm, at, cref, q, lits, tv, pair.items[0], pair.items[1], need, units, biggest)
                if name.startswith('Unique'):
                    again(S, rep, nm, at, q, tv, T, tl, pair.items[1], fives(name))
    if name.startswith('Unique'):
        with rep.group('%s offers' % name):
            inused = set(fives(name))
            for tl, tv in T.items():
                o = S.run(lambda I, s: drain(I, s, I.call_method(s, pat, 'next_states', [tv], {}, None)), st.copy())
                off = elements(S, o.st, o.value) if o.value != NONE else []
                nm = '%s %s a pair of %d%s' % (name, 'does not offer' if tl in inused else 'offers', tl[0], tl[1])
                rep.decide(None if off is None else (not off) == (tl in inused), nm, where(S, cref, 'next_states'), '%d offers' % len(off or []))


def drain(I, s, v):
    es = I.entries(s, v) if s.simp(v) != NONE else []
    if es is None:
        return v
    return s.new(Obj('list', Bi('list'), {}, list(es)))


def offer(S, rep, nm, at, cref, q, lits, tile, unit, nxt, need, units, biggest):
    for g, u in alts(q, unit):
        s = under(q, g)
        n = total(S, s, u)
        if n is None:
            rep.decide(False if type(u) in (Const, Tup) else None, nm + ': group', at, '%r' % (u,))
            continue
        nneed = ask(S, s, nxt, 'need_count')
        nunits = ask(S, s, nxt, 'need_units')
        if nneed.dead or nunits.dead:
            rep.bad(nm, at, 'the following pattern cannot tell what it needs')
            continue
        lit = tuple(lits) + g
        for what, a, b in (('needs as many tiles fewer as the group has', n_sub(need, nneed.value), n), ('needs one group fewer', n_sub(units, nunits.value), Const(1))):
            rep.decide(same_value(a, b, lit), '%s: the following pattern %s' % (nm, what), at, 'difference %r, due %r, when %r' % (a, b, lit))
        big = n_lt(biggest, n)
        rep.decide(same_value(s.simp(big), FALSE, lit), '%s: no group larger than announced' % nm, where(S, cref, 'max_unit_length'), 'announced %r, group %r, when %r' % (biggest, n, lit))
        c = S.run(lambda I, z: I.compare(z, 'In', tile, u, None), s.copy())
        v = None if c.dead else c.value
        rep.decide(v.v if type(v) is Const else None, '%s: the group contains the tile' % nm, at, '')
        for meth in ('need_count', 'need_units'):
            x = (nneed if meth == 'need_count' else nunits).value
            rep.decide(same_value(n_lt(x, Const(0)), FALSE, lit), '%s: %s never below zero' % (nm, meth), at, '%r when %r' % (x, lit))


def again(S, rep, nm, at, q, tv, T, tl, nxt, before):
    """the continuation offers nothing for the same tile (a red five is a five)"""
    same = [tv]
    if tl[0] in (0, 5) and tl[1] != 'z':
        same = [T[(0, tl[1])], T[(5, tl[1])]]
    same += [T[x] for x in before]
    for t in same:
        o = S.run(lambda I, s: drain(I, s, I.call_method(s, nxt, 'next_states', [t], {}, None)), q.copy())
        off = None if o.dead else elements(S, o.st, o.value) if o.value != NONE else []
        rep.decide(None if off is None else not off, '%s: not offered a second time' % nm, at, 'offered again')
