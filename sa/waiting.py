"""Abstract worlds for the hand analysis code: a hand with symbolic counts over
representative tiles (a red five among them), the list of all tiles cut down to
the same representatives, and small win patterns."""
from .lib import *
from .recs import *
from .effects import *

R = 'mahjong.container.pattern.reasoning'
W = 'mahjong.container.pattern.win'
D = 'mahjong.tile.definition'
C = 'mahjong.container.set'
T = 'mahjong.container.distribution'

PATTERNS = {
    'one pair left': lambda S, s: S.new(s, S.g(W, 'NormalTypeWin'), pairs=Const(1), melds=Const(0)),
    'one meld left': lambda S, s: S.new(s, S.g(W, 'NormalTypeWin'), pairs=Const(0), melds=Const(1)),
    'two pairs left': lambda S, s: S.new(s, S.g(W, 'NormalTypeWin'), pairs=Const(2), melds=Const(0)),
    'a pair and a meld left': lambda S, s: S.new(s, S.g(W, 'NormalTypeWin'), pairs=Const(1), melds=Const(1)),
    'two unique pairs left': lambda S, s: S.new(s, S.g(W, 'UniquePairs'), pairs=Const(2)),
    'one unique pair left': lambda S, s: S.new(s, S.g(W, 'UniquePairs'), pairs=Const(1)),
}


class World:
    pass


SMALL = ('one pair left', 'one meld left', 'one unique pair left')
LARGER = ('two pairs left',)


def world(S, pattern='one pair left', name='h', lo=0, hi=4, single=False):
    w = World()
    I = S.I
    w.st = st = S.state()
    Tile, Aka = S.g(D, 'Tile'), S.g(D, 'AkaTile')
    w.one = S.new(st, Tile, Const(1), Const('m'))
    w.five = S.new(st, Tile, Const(5), Const('p'))
    w.red = S.new(st, Aka, Const(0), Const('p'))
    TD = S.g(T, 'TileDistribution')
    al = st.simp(I.class_attr(st, TD, 'ALL_TILES'))
    if type(al) is not Ref or type(st.get(al.oid).data) is not list:
        raise Anchor('TileDistribution.ALL_TILES is not a list')
    w.all = al
    w.pool = [e.v for e in st.get(al.oid).data]
    st.w(al.oid).data = [Entry(w.one)] if single else [Entry(w.one), Entry(w.five)]
    w.single = single
    w.hand = hand(S, st, w, name, lo, hi)
    w.pattern = PATTERNS[pattern](S, st) if isinstance(pattern, str) else pattern
    return w


def hand(S, st, w, name, lo=0, hi=4):
    h = S.new(st, S.g(C, 'TileSet'))
    if not w.single:
        m_coll.dict_set(S.I, st, h, w.red, leaf(name + '0', lo, hi), None)
    m_coll.dict_set(S.I, st, h, w.one, leaf(name + '1', lo, hi), None)
    return h


def calculators(S):
    """concrete waiting calculators and their public methods"""
    base = S.g(R, 'Waiting')
    out = []
    for mod, n, c in subclasses(S, base):
        if S.I.abstract_methods(S.base, c):
            continue
        out.append((n, c, public(S, c)))
    return out


def public(S, c):
    names = {}
    for b in S.I.mro(S.base, c):
        if type(b) is Ref:
            for n, v in S.base.get(b.oid).attrs.items():
                if not n.startswith('_') and type(v) is Ref and S.base.get(v.oid).kind == 'func' and n not in names:
                    args = S.base.get(v.oid).data.node.args
                    ps = [a.arg for a in args.args]
                    if len(ps) - len(args.defaults) == 2:
                        names[n] = ps
    return sorted(names.items())


def drain(I, s, v, each=None):
    """consume the result completely; each(state) is called at every element"""
    v = s.simp(v)
    if type(v) is Tup or type(v) is not Ref or s.get(v.oid).kind not in ('gen', 'iter', 'lazy'):
        return v
    out = I.new_list(s, [])

    def body(q, x):
        if each is not None:
            each(q, x)
        q.w(out.oid).data.append(Entry(x))
        return None
    outs = I.iterate(s, v, body, None)
    ns = [(o[1], None) for o in outs if o[0] in ('n', 'brk', 'cont')]
    if not ns:
        raise PathDead()
    m = merge_states(ns)[0] if len(ns) > 1 else ns[0][0]
    if m is not s:
        s.become(m)
    return out


def definitely_changed(S, st0, st1, oid):
    """an alternative of the content that differs for certain, as text, else None"""
    a, b = st0.get(oid), st1.get(oid)
    if a is b:
        return None
    r, why = unchanged(S, st0, st1, oid)
    if r is False:
        return why
    if r is True:
        return None
    k = m_coll.kind_of(S.I, st0, Ref(oid))
    if k == 'dict' and is_counter(S, st0, a):
        x, y = count_map(S, st0, Ref(oid)), count_map(S, st1, Ref(oid))
        for key in set(x) | set(y):
            p, q = x.get(key, Const(0)), y.get(key, Const(0))
            was = [v for _, v in alts(st0, p)]
            for g, v in alts(st1, q):
                if all(same_value(v, u) is False for u in was):
                    return 'the count of %r was %r and may become %r' % (key, p, v)
    elif k == 'dict':
        x, y = a.data, b.data
        for key in set(x) | set(y):
            if key not in x or key not in y:
                return 'entry %r %s' % (key, 'appeared' if key not in x else 'vanished')
            if x[key].v != y[key].v or (x[key].g != y[key].g):
                for g, v in alts(st1, y[key].v):
                    if type(v) in (Const, Ref, Tup) and all(v != u for _, u in alts(st0, x[key].v)):
                        return 'entry %r was %r and may become %r' % (key, x[key].v, v)
                if not x[key].g and y[key].g:
                    return 'entry %r may vanish' % (key,)
    elif k in ('list', 'set'):
        x = [e.v for e in a.data if isinstance(e, Entry)] if k == 'list' else list(set_members(S, st0, oid) or {})
        y = [e.v for e in b.data if isinstance(e, Entry)] if k == 'list' else list(set_members(S, st1, oid) or {})
        if len(x) != len(y):
            return 'it had %d elements and may have %d' % (len(x), len(y))
    for n in set(a.attrs) | set(b.attrs):
        p, q = a.attrs.get(n, UNDEF), b.attrs.get(n, UNDEF)
        if isinstance(p, V) and isinstance(q, V) and p != q:
            for g, v in alts(st1, q):
                if all((same_value(v, u) is False) if type(v) not in (Ref, Tup) else v != u for _, u in alts(st0, p)):
                    return 'attribute %s was %r and may become %r' % (n, p, v)
    return None
