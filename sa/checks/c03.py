"""C03: tile-collection operations leave their operands alone and return new collections."""
from ..lib import *
from ..recs import *
from ..effects import *

RULE = ('Abstract interpretation of the tile collection class on operands whose counts are symbolic (ranges including zero and negative), '
        'with an effect listener on everything that existed before the operation: after each operator or method the operands must hold '
        'the same count for every key, no other earlier object may change, and sum, difference, intersection, union, copy and successful '
        'exclusion must give an object of the collection class that did not exist before.')

M = 'mahjong.container.set'
D = 'mahjong.tile.definition'

# name, callable(I, s, a, b, arg) and whether a new collection is due
BIN = [('+', 'Add'), ('-', 'Sub'), ('&', 'BitAnd'), ('|', 'BitOr')]
CMP = ['Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE']


def world(S, lo, kind):
    """state, a, b with symbolic counts over a few tiles"""
    st = S.state()
    I = S.I
    Tile, Aka = S.g(D, 'Tile'), S.g(D, 'AkaTile')
    TS = S.g(M, 'TileSet')
    ts = [S.new(st, Tile, Const(n), Const(c)) for n, c in ((1, 'm'), (9, 'p'), (5, 's'), (7, 'z'))] + [S.new(st, Aka, Const(0), Const('p'))]
    a = S.new(st, TS)
    b = S.new(st, TS if kind.endswith('TileSet') else Bi('collections.Counter'))
    empty = kind.startswith('empty')
    # different insertion orders, one key on each side only
    for i, x in enumerate((3, 0, 4, 2)):
        m_coll.dict_set(I, st, a, ts[x], leaf('a%d from %d' % (i, lo), lo, 4), None)
    for i, x in enumerate(() if empty else (2, 1, 3)):
        m_coll.dict_set(I, st, b, ts[x], leaf('b%d from %d' % (i, lo), lo, 4), None)
    return st, a, b, ts, TS


def drain(I, s, v):
    v = s.simp(v)
    if type(v) is Ref and (s.get(v.oid).kind in ('gen', 'iter', 'lazy') or m_coll.kind_of(I, s, v)):
        I.entries(s, v)
    return v


def run(rep):
    S = Session(rep)
    TS = S.g(M, 'TileSet')
    where = lambda name: S.loc_of(S.I.class_attr(S.base, TS, name)) if type(S.I.class_attr(S.base, TS, name)) is Ref else S.where_class(TS)
    dunder = {'Add': '__add__', 'Sub': '__sub__', 'BitAnd': '__and__', 'BitOr': '__or__', 'Eq': '__eq__', 'NotEq': '__eq__', 'Lt': '__lt__',
              'LtE': '__lt__', 'Gt': '__lt__', 'GtE': '__lt__'}
    for lo in (0, -3):
        for kind in ('TileSet', 'Counter', 'empty TileSet', 'empty Counter'):
            ops = []
            for sym, n in BIN:
                ops.append(('a %s b' % sym, dunder[n], lambda I, s, a, b, t, n=n: I.binop(s, n, a, b, None), True))
            if kind.endswith('TileSet'):
                for n in CMP:
                    ops.append(('a %s b' % n, dunder[n], lambda I, s, a, b, t, n=n: I.compare(s, n, a, b, None), False))
                ops.append(('a.exclude(b)', 'exclude', lambda I, s, a, b, t: I.call_method(s, a, 'exclude', [b], {}, None), 'maybe'))
                ops.append(('a + a', '__add__', lambda I, s, a, b, t: I.binop(s, 'Add', a, a, None), True))
                ops.append(('a - a', '__sub__', lambda I, s, a, b, t: I.binop(s, 'Sub', a, a, None), True))
                ops.append(('a & a', '__and__', lambda I, s, a, b, t: I.binop(s, 'BitAnd', a, a, None), True))
                ops.append(('a | a', '__or__', lambda I, s, a, b, t: I.binop(s, 'BitOr', a, a, None), True))
                ops.append(('a.copy()', 'copy', lambda I, s, a, b, t: I.call_method(s, a, 'copy', [], {}, None), True))
                ops.append(('len(a)', '__len__', lambda I, s, a, b, t: I.call(s, Bi('len'), [a], {}, None), False))
                ops.append(('a.re_sort()', 're_sort', lambda I, s, a, b, t: I.call_method(s, a, 're_sort', [], {}, None), False))
                if True:
                    ops.append(('str(a)', '__str__', lambda I, s, a, b, t: I.call(s, Bi('str'), [a], {}, None), False))
                    ops.append(('repr(a)', '__repr__', lambda I, s, a, b, t: I.call(s, Bi('repr'), [a], {}, None), False))
                    ops.append(('list(a.tiles())', 'tiles', lambda I, s, a, b, t: drain(I, s, I.call_method(s, a, 'tiles', [], {}, None)), False))
                ops.append(('list(a)', '__iter__', lambda I, s, a, b, t: I.call(s, Bi('list'), [a], {}, None), False))
                ops.append(('a[tile]', '__getitem__', lambda I, s, a, b, t: I.get_item(s, a, t[0], None), False))
                ops.append(('a[missing tile]', '__missing__', lambda I, s, a, b, t: I.get_item(s, a, t[1], None), False))
                ops.append(('bool(a)', '__bool__', lambda I, s, a, b, t: I.call(s, Bi('bool'), [a], {}, None), False))
            ops.append(('a.contains(b)', 'contains', lambda I, s, a, b, t: I.call_method(s, a, 'contains', [b], {}, None), False))
            for nm, meth, fn, fresh in ops:
                name = '%s (b a %s, counts from %d)' % (nm, kind, lo)
                with rep.group(name):
                    one(S, rep, name, where(meth), lo, kind, fn, fresh)
    iops(S, rep, where)


def one(S, rep, name, at, lo, kind, fn, fresh):
    st, a, b, ts, TS = world(S, lo, kind)
    st0 = st.copy()
    old = set(reach(st, [a, b] + ts))
    eff = Effects(S, old)
    o = S.run(lambda I, s: fn(I, s, a, b, ts), st, listen=eff)
    rep.count('operations interpreted')
    if o.dead:
        names = sorted({str(n) for n, _ in S.exc(o)})
        rep.decide(None if not names else False, name + ' gives a result', at, 'always raises %s' % names)
        return
    for x, who in ((a, 'left operand'), (b, 'right operand')):
        r, why = unchanged(S, st0, o.st, x.oid, True)
        w, chain = eff.where(x.oid)
        rep.decide(r, '%s keeps the counts of the %s' % (name, who), w or at, '%s; %s' % (why, chain))
    for x in old - {a.oid, b.oid}:
        r, why = unchanged(S, st0, o.st, x)
        if r is not True:
            w, chain = eff.where(x)
            rep.decide(r, '%s leaves the tiles alone' % name, w or at, '%s; %s' % (why, chain))
    if fresh:
        verdict = True
        why = ''
        for g, v in alts(o.st, o.value):
            if fresh == 'maybe' and v == NONE:
                continue
            if type(v) is Ref:
                if v.oid in old:
                    verdict, why = False, 'the result is one of the operands'
                    break
                c = o.st.get(v.oid).cls
                if c != TS:
                    verdict, why = False, 'the result is a %r' % (c,)
                    break
            elif type(v) in (Const, Tup):
                verdict, why = False, 'the result is %r' % (v,)
                break
            else:
                verdict = None
        rep.decide(verdict, '%s gives a new collection' % name, at, why)
        if fresh == 'maybe':
            some = any(type(v) is Ref for _, v in alts(o.st, o.value))
            rep.decide(some, '%s gives a collection when it succeeds' % name, at, 'no result at all')


def iops(S, rep, where):
    """updating a copy never reaches the collection it was copied from"""
    for nm, f in (('c = a.copy(); c[t] = n', lambda I, s, c, t: I.set_item(s, c, t[0], leaf('n', 0, 4), None)),
                  ('c = a.copy(); c += a', lambda I, s, c, t: I.binop(s, 'Add', c, c, None, True) if False else I.call_method(s, c, 'update', [c], {}, None)),
                  ('c = a.copy(); del c[t]', lambda I, s, c, t: I.del_item(s, c, t[0], None)),
                  ('c = a.copy(); c.clear()', lambda I, s, c, t: I.call_method(s, c, 'clear', [], {}, None))):
        with rep.group(nm):
            st, a, b, ts, TS = world(S, 0, 'TileSet')
            st0 = st.copy()
            eff = Effects(S, {a.oid})

            def go(I, s):
                c = I.call_method(s, a, 'copy', [], {}, None)
                f(I, s, c, ts)
                return c
            o = S.run(go, st, listen=eff)
            r, why = unchanged(S, st0, o.st, a.oid, True)
            rep.decide(None if o.dead else r, '%s leaves a alone' % nm, where('copy'), why)
