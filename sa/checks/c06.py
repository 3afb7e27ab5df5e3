"""C06: tiles are immutable interned values with agreeing equality, hash and order."""
import ast
from ..lib import *
from ..recs import *
from ..waiting import drain
from ..effects import *

RULE = ('Abstract interpretation of the tile module over its complete domain of 37 tiles: ==, != , hash and the six order operators are folded '
        'for all pairs and compared with the key (suit, number with a red five as five); construction is folded twice and must give the same '
        'object; pair, triplet, run and next are folded per tile; an effect analysis of every method, and of every store in the package to an '
        'attribute name of a tile, shows nothing writes a tile after construction.')

D = 'mahjong.tile.definition'


def tiles():
    for c in 'mps':
        for n in range(10):
            yield n, c
    for n in range(1, 8):
        yield n, 'z'


def key(t):
    return (t[1], t[0] or 5)


def run(rep):
    S = Session(rep)
    Tile, Aka = S.g(D, 'Tile'), S.g(D, 'AkaTile')
    wt, wa = S.where_class(Tile), S.where_class(Aka)
    st = S.state()
    allt = list(tiles())
    with rep.group('construction'):
        def mk(I, s):
            a = [S.new(s, Aka if n == 0 else Tile, Const(n), Const(c)) for n, c in allt]
            b = [S.new(s, Aka if n == 0 else Tile, Const(n), Const(c)) for n, c in reversed(allt)]
            return Tup(a + b[::-1])
        o = S.run(mk, st)
        if o.dead:
            rep.bad('every tile can be created', wt, 'raises %s' % [n for n, _ in S.exc(o)])
            return
        st = o.st
        n = len(allt)
        T = dict(zip(allt, o.value.items[:n]))
        for t, again in zip(allt, o.value.items[n:]):
            same = T[t] == again
            rep.decide(same if type(again) is Ref and type(T[t]) is Ref else None, 'asking twice for %d%s gives one object' % t, wa if t[0] == 0 else wt,
                       'two different objects for the same tile')
        for t in allt:
            if t[0] == 0:
                rep.decide(T[t] != T[(5, t[1])], 'the red five of %s is a tile of its own' % t[1], wa, 'the pool returns the ordinary five')
            cls = st.get(T[t].oid).cls
            rep.decide(cls == (Aka if t[0] == 0 else Tile), 'class of %d%s' % t, wa, repr(cls))
    compare_all(S, rep, st, T, allt)
    parts(S, rep, st, T, allt)
    effects(S, rep, st, T, allt)
    groups(S, rep, st, T)
    writers(S, rep, st, T)


def op(S, st, name, a, b):
    s = st.copy()
    return S.run(lambda I, q: I.compare(q, name, a, b, None), s)


def compare_all(S, rep, st, T, allt):
    Tile = S.g(D, 'Tile')
    ops = {'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b,
           'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b}
    # every tile against every tile
    hashes = {}
    with rep.group('hash'):
        for t in allt:
            o = S.run(lambda I, s: I.models.call_builtin(I, s, 'hash', [T[t]]) if hasattr(I.models, 'call_builtin') else I.call(s, Bi('hash'), [T[t]], {}, None), st.copy())
            hashes[t] = None if o.dead else o.value
            cls = st.get(T[t].oid).cls
            rep.decide(False if o.dead else True, '%d%s can be hashed' % t, S.loc_of(S.I.class_attr(st, cls, '__hash__') or cls), 'raises')
    for name, f in ops.items():
        wrong = unknown = None
        with rep.group(name):
            for a in allt:
                for b in allt:
                    o = op(S, st, name, T[a], T[b])
                    rep.count('comparisons folded')
                    want = f(key(a), key(b))
                    v = o.value
                    if o.dead:
                        wrong = '%d%s and %d%s: raises' % (a + b)
                    elif type(v) is Const:
                        if bool(v.v) != want:
                            wrong = '%d%s %s %d%s gives %r' % (a + (name,) + b + (v.v,))
                    else:
                        unknown = '%d%s %s %d%s' % (a + (name,) + b)
            at = S.I.class_attr(st, Tile, {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__lt__', 'Gt': '__lt__', 'GtE': '__lt__'}[name])
            rep.decide(False if wrong else None if unknown else True, 'operator %s agrees with the tile key' % name, S.loc_of(at) if at is not None else '', wrong or unknown or '')
    with rep.group('hash agrees with equality'):
        bad = unk = None
        for a in allt:
            for b in allt:
                if key(a) == key(b):
                    r = same_value(hashes[a], hashes[b]) if hashes[a] is not None and hashes[b] is not None else None
                    if r is False:
                        bad = 'equal tiles %d%s and %d%s hash to %r and %r' % (a + b + (hashes[a], hashes[b]))
                    elif r is None:
                        unk = '%d%s %d%s' % (a + b)
        rep.decide(False if bad else None if unk else True, 'equal tiles have equal hashes', S.where_class(S.g(D, 'AkaTile')), bad or unk or '')


def content(S, st, v):
    v = st.simp(v)
    if type(v) is not Ref:
        return None if type(v) is not Const else v.v
    out = {}
    for k, e in st.get(v.oid).data.items():
        n = st.get(e.k.oid).attrs.get('_number') if type(e.k) is Ref else None
        c = st.simp(e.v)
        if e.g or type(c) is not Const:
            raise NotPlain(v)
        out[e.k] = c.v
    return out


def parts(S, rep, st, T, allt):
    cls = {0: S.g(D, 'AkaTile')}
    Tile = S.g(D, 'Tile')

    def ask(t, m, args=()):
        s = st.copy()
        o = S.run(lambda I, q: I.call_method(q, T[t], m, list(args), {}, None), s)
        return o
    for t in allt:
        n, c = t[0] or 5, t[1]
        suit = c != 'z'
        want = {
            'pair': {(n, c): 2}, 'triplet': {(n, c): 3},
            'flush': {(n + i, c): 1 for i in range(3)} if suit and n <= 7 else None,
            'next': (n + 1, c) if suit and n < 9 else None,
        }
        for m, w in want.items():
            nm = '%s of %d%s' % ((m,) + t)
            with rep.group(nm):
                at = S.loc_of(S.I.class_attr(st, st.get(T[t].oid).cls, m))
                o = ask(t, m)
                if o.dead:
                    rep.bad(nm, at, 'raises %s' % [x for x, _ in S.exc(o)])
                    continue
                v = o.value
                if m == 'next':
                    if w is None:
                        rep.decide(v == NONE if type(v) in (Const, Ref) else None, nm, at, 'gives %r' % (v,))
                    else:
                        ok = type(v) is Ref and v in (T[w], T.get((0, w[1])) if w[0] == 5 else None)
                        rep.decide(ok if type(v) in (Const, Ref) else None, nm, at, 'is not %d%s' % w)
                    continue
                if w is None:
                    rep.decide(v == NONE if type(v) in (Const, Ref) else None, nm, at, 'is not absent')
                    continue
                got = content(S, o.st, v)
                if not isinstance(got, dict):
                    rep.decide(False if type(v) is Const else None, nm, at, 'gives %r' % (v,))
                    continue
                names = {}
                for k, x in got.items():
                    r = [q for q in allt if T[q] == k]
                    kk = (r[0][0] or 5, r[0][1]) if r else k
                    names[kk] = names.get(kk, 0) + x
                rep.decide(names == w, nm, at, 'holds %r' % (names,))
    # read only names
    for t in ((3, 'm'), (0, 'p'), (5, 'z')):
        for a, w in (('number', t[0]), ('color', t[1])):
            nm = '%s of %d%s' % ((a,) + t)
            with rep.group(nm):
                s = st.copy()
                o = S.run(lambda I, q: I.get_attr(q, T[t], a, None), s)
                rep.decide(o.value == Const(w) if not o.dead and type(o.value) is Const else (False if o.dead else None), nm, S.where_class(Tile), repr(o.value))
            nm = '%s of %d%s cannot be assigned' % ((a,) + t)
            with rep.group(nm):
                s = st.copy()
                o = S.run(lambda I, q: (I.set_attr(q, T[t], a, Const(7), None), NONE)[1], s)
                rep.decide(bool(o.dead), nm, S.loc_of(S.I.class_attr(st, Tile, a)), 'the assignment is accepted')


def effects(S, rep, st, T, allt):
    Tile = S.g(D, 'Tile')
    shared = reach(st, list(T.values()))
    roots = [t for t in ((1, 'm'), (7, 'p'), (0, 's'), (5, 's'), (9, 's'), (7, 'z'))]
    methods = sorted({n for c in (Tile, S.g(D, 'AkaTile')) for n, v in S.base.get(c.oid).attrs.items()
                      if type(v) is Ref and S.base.get(v.oid).kind == 'func' and n not in ('__new__', '__init__', '__init_subclass__')})
    for m in methods:
        for t in roots:
            nm = 'calling %s on %d%s leaves all tiles as they are' % ((m,) + t)
            with rep.group(nm):
                fn = S.I.class_attr(st, st.get(T[t].oid).cls, m)
                fd = S.base.get(fn.oid).data
                npos = len(fd.node.args.args) - 1 - len(fd.node.args.defaults)
                args = []
                for i in range(npos):
                    nmx = fd.node.args.args[i + 1].arg
                    args.append(Const(2) if nmx in ('count', 'n', 'num', 'number') else T[(4, 'p')])
                eff = Effects(S, set(shared))
                s = st.copy()
                before = st
                o = S.run(lambda I, q: I.call_method(q, T[t], m, args, {}, None), s, listen=eff)
                verdict_effect(S, rep, nm, S.loc_of(fn), before, o.st, shared, eff)
    # module level helpers
    for fname in ('tile_pair', 'tile_triplet', 'tile_flush'):
        if S.has(D, fname):
            nm = '%s leaves all tiles as they are' % fname
            with rep.group(nm):
                f = S.g(D, fname)
                eff = Effects(S, set(shared))
                o = S.run(lambda I, q: I.call(q, f, [T[(2, 'p')]], {}, None), st.copy(), listen=eff)
                verdict_effect(S, rep, nm, S.loc_of(f), st, o.st, shared, eff)


def groups(S, rep, st, T):
    """what can be done with the groups a tile hands out leaves the tiles alone"""
    D0 = st.copy()
    shared = reach(st, list(T.values()))
    made = [((3, 'm'), 'pair'), ((3, 'm'), 'triplet'), ((0, 's'), 'flush'), ((5, 's'), 'triplet'), ((7, 'z'), 'pair'), ((7, 'z'), 'triplet')]
    ops = [('-', 'Sub'), ('+', 'Add'), ('&', 'BitAnd'), ('|', 'BitOr')]
    calls = ['contains', 'exclude', '__lt__', '__eq__']
    alone = ['copy', '__str__', '__repr__', '__len__', 'tiles', 'items', 'values']

    def get(I, s, x):
        return I.call_method(s, T[x[0]], x[1], [], {}, None)

    def one(nm, f, at):
        with rep.group(nm):
            eff = Effects(S, set(shared))
            o = S.run(f, D0.copy(), listen=eff)
            rep.count('operations on groups')
            verdict_effect(S, rep, nm, at, st, o.st, shared, eff)
    cls = S.g('mahjong.container.set', 'TileSet')
    at = S.where_class(cls)
    for a in made:
        for m in alone:
            one('%s of the %s of %d%s leaves all tiles as they are' % ((m, a[1]) + a[0]),
                lambda I, s: drain(I, s, I.call_method(s, get(I, s, a), m, [], {}, None)) if m in ('tiles', 'items', 'values') else I.call_method(s, get(I, s, a), m, [], {}, None), at)
        for b in made:
            for sym, op_ in ops:
                one('%s of %d%s %s %s of %d%s leaves all tiles as they are' % ((a[1],) + a[0] + (sym, b[1]) + b[0]),
                    lambda I, s: I.binop(s, op_, get(I, s, a), get(I, s, b), None), at)
            for m in calls:
                one('%s of %d%s, %s with %s of %d%s leaves all tiles as they are' % ((a[1],) + a[0] + (m, b[1]) + b[0]),
                    lambda I, s: I.call_method(s, get(I, s, a), m, [get(I, s, b)], {}, None), at)


def verdict_effect(S, rep, nm, where, st0, st1, oids, eff, counter=None):
    res, why, at = True, '', where
    for x in oids:
        r, t = unchanged(S, st0, st1, x, counter)
        if r is False:
            w, chain = eff.where(x)
            rep.bad(nm, w or where, '%s; %s' % (t, chain))
            return
        if r is None:
            res, why = None, 'object %r' % x
    rep.decide(res, nm, where, why)


def writers(S, rep, st, T):
    """who may store the attributes of a tile"""
    names = set()
    for r in T.values():
        names |= {n for n in st.get(r.oid).attrs if not n.startswith('~')}
    pools = {n for c in ('Tile', 'AkaTile') for n, v in S.base.get(S.g(D, c).oid).attrs.items()
             if type(v) is Ref and S.base.get(v.oid).kind in ('dict', 'list', 'set')}
    ctor = ('__new__', '__init__')
    for mod, tree in S.I.trees.items() if hasattr(S.I, 'trees') else []:
        for fn, cls, node, what in stores(tree):
            if what in names and not (mod == D and fn in ctor) and not foreign_attr(S, mod, cls, what):
                rep.bad('only construction stores the attribute %s of a tile' % what, S.loc(node), 'stored in %s' % (fn or 'module'))
            if what in pools and not (mod == D and fn in ctor + (None,)):
                rep.bad('only construction uses the pool %s' % what, S.loc(node), 'written in %s' % fn)
        rep.count('modules scanned for stores')
    rep.ok('stores to tile attributes happen in construction only', S.where_class(S.g(D, 'Tile')))


def foreign_attr(S, mod, cls, name):
    """the store belongs to a class of its own that is not a tile"""
    return cls is not None and not (mod == D and cls in ('Tile', 'AkaTile'))


def stores(tree):
    out = []

    def go(n, fn, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                go(c, c.name, cls)
                continue
            if isinstance(c, ast.ClassDef):
                go(c, None, c.name)
                continue
            ts = []
            if isinstance(c, ast.Assign):
                ts = c.targets
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign)):
                ts = [c.target]
            elif isinstance(c, ast.Delete):
                ts = c.targets
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        # a store through self belongs to the enclosing class
                        own = isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls')
                        out.append((fn, cls if own else None, x, x.attr))
            go(c, fn, cls)
    go(tree, None, None)
    return out
