"""C27: simulated draws come without replacement from the unseen tiles."""
from ..lib import *
from ..recs import *
from ..effects import *
from ..programs import hooks, Calls, external_names

RULE = ('Abstract interpretation with value numbering: walls with symbolic numbers of copies are drawn from along several sequences of draws; what '
        'every draw chooses among and the weight of every tile kind are compared, as values, with the copies of the wall less the tiles drawn '
        'before it, and the wall object of the caller is compared with what it was. The simulation program is interpreted on constant hands: each '
        'of its draws must choose among four copies of each kind less the hand less the draws of the same experiment. Every use of random choice '
        'in the package has to be one of those met.')

ASSUMPTIONS = ['random.choices draws one of the population with a probability proportional to its weight']

DIST = 'mahjong.container.distribution'
UTILS = 'mahjong.container.utils'
SET = 'mahjong.container.set'
DEMO = 'mahjong.win_rate_demo'
KINDS = ['%d%s' % (n, s) for s in 'mps' for n in range(1, 10)] + ['%dz' % n for n in range(1, 8)]
DRAWS = {'distinct': (3, 17, 33), 'the same twice': (0, 0, 20), 'honours': (33, 27, 33), 'first and last kind': (0, 33, 0)}


class Draws:
    """stand-in for the random choice: hands out given kinds and keeps what it was asked"""

    def __init__(self, S, order):
        self.S, self.order, self.met, self.at, self.strange = S, list(order), [], set(), []

    def choices(self, I, s, a, k, node):
        a = [x for x in a if isinstance(x, V)]
        pop = a[0] if a else k.get('population')
        w = a[1] if len(a) > 1 else k.get('weights')
        cum = k.get('cum_weights')
        n = k.get('k', a[3] if len(a) > 3 else Const(1))
        n = s.simp(n)
        if pop is None or cum is not None or n != Const(1) or len(a) == 3:
            self.strange.append((node, 'not a single weighted draw'))
            return NotImplemented
        ps = seq(self.S, s, pop)
        ws = None if w is None or s.simp(w) == NONE else seq(self.S, s, w)
        if ps is None or (w is not None and s.simp(w) != NONE and ws is None):
            self.strange.append((node, 'population or weights not known'))
            return NotImplemented
        names = []
        for p in ps:
            t = I.call(s, Bi('str'), [p], {}, node)
            t = s.simp(t)
            names.append(t.v if type(t) is Const else None)
        self.met.append((names, ws, node, s.copy()))
        i = self.order[(len(self.met) - 1) % len(self.order)]
        want = KINDS[i]
        if want in names:
            return I.new_list(s, [ps[names.index(want)]])
        return I.new_list(s, [ps[0]])


def wall(S, st, counts, cls=None):
    """TileSet with the given (symbolic) counts"""
    I = S.I
    text = ''.join(counts)
    ts = I.call(st, S.g(SET, 'TileSet'), [], {}, None)
    Tile, Aka = S.g('mahjong.tile.definition', 'Tile'), S.g('mahjong.tile.definition', 'AkaTile')
    for k, v in counts.items():
        t = I.call(st, Aka if k[0] == '0' else Tile, [Const(int(k[0])), Const(k[1])], {}, None)
        m_coll.dict_set(I, st, ts, t, v, None)
    return ts


def weights_of(S, st, w):
    o = S.run(lambda I, s: I.call_method(s, w, 'weights', [], {}, None), st.copy())
    r = seq(S, o.st, o.value) if not o.dead else None
    return r


def expected(counts, drawn):
    out = []
    for i, k in enumerate(KINDS):
        v = counts.get(k, Const(0))
        n = drawn.count(k)
        out.append(lin(v, -n) if n else v)
    return out


def judge(S, rep, name, at, names, ws, want, population=None):
    """the draw chooses among all kinds, weighted by want"""
    if sorted(x or '?' for x in names) != sorted(KINDS):
        miss = [k for k in KINDS if k not in names]
        more = sorted({x for x in names if x is None or names.count(x) > 1 or x not in KINDS}, key=str)
        if any(x is None for x in names):
            rep.undecided(name + ': all tile kinds', at, 'unknown kinds')
            return
        if ws is None or more:
            rep.bad(name + ': all tile kinds', at, 'missing %s, repeated %s' % (miss[:6], more[:6])) if ws is None else compare(S, rep, name, at, names, ws, want)
            return
    else:
        rep.ok(name + ': all tile kinds')
    compare(S, rep, name, at, names, ws, want)


def compare(S, rep, name, at, names, ws, want):
    if ws is None:
        rep.bad(name + ': weights are the copies left', at, 'no weights are given: every kind is equally likely')
        return
    if len(ws) != len(names):
        rep.bad(name + ': weights are the copies left', at, '%d weights for %d kinds' % (len(ws), len(names)))
        return
    res, why = True, ''
    for k in KINDS:
        mine = [w for n, w in zip(names, ws) if n == k]
        exp = want[KINDS.index(k)]
        if not mine:
            r = True if exp == Const(0) else same_value(exp, Const(0))
            got = 'nothing'
        elif len(mine) > 1:
            r, got = None, mine
        else:
            r, got = same_value(mine[0], exp), mine[0]
        if r is False:
            res, why = False, 'the weight of %s is %r with %r copies left' % (k, got, exp)
            break
        if r is None:
            res = None
    rep.decide(res, name + ': weights are the copies left', at, why)


def run(rep):
    S = Session(rep)
    met = set()
    where = S.loc_of(S.g(DIST, 'StaticWall'))
    with rep.group('single draw'):
        picks(S, rep, where)
    for dn, order in sorted(DRAWS.items()):
        with rep.group('draws %s' % dn):
            sampling(S, rep, where, dn, order, met)
    for hand, order in (('123m067p9s1234567z', (13, 13, 33, 0, 0, 5)), ('1112345678999m1p', (0, 4, 9, 9, 4, 33))):
        with rep.group('simulation of %s' % hand):
            simulation(S, rep, hand, order, met)
    for r in external_names(S):
        if (r.name.startswith('random.') or r.name.startswith('numpy.random.')) and r.call is not None and not r.name.endswith(('.seed', '.Random')):
            import os
            seen = (r.path, r.call.lineno) in met or (r.path, r.node.lineno) in met
            rep.decide(True if seen else None, 'random choice at %s is a draw' % r.where(), r.where(), '')


def counts_of(lo=2):
    c = {}
    for i, k in enumerate(('1m', '4m', '9p', '3s', '1z', '7z')):
        c[k] = leaf('copies of %s' % k, lo, 4)
    c['6p'] = Const(0)
    return c


def same_wall(S, rep, name, at, before, after, obj):
    r, why = unchanged(S, before, after, obj.oid)
    rep.decide(r, name + ': the wall of the caller is as it was', at, why or '')


def picks(S, rep, where):
    I = S.I
    for k in ('1m', '9p', '7z', '3s'):
        st = S.state()
        counts = counts_of()
        ts = wall(S, st, counts)
        w = I.call(st, S.g(DIST, 'StaticWall'), [ts], {}, None)
        ws = weights_of(S, st, w)
        if ws is None:
            rep.undecided('weights', where, '')
            return
        compare(S, rep, 'a wall', where, KINDS if len(ws) == len(KINDS) else [None] * len(ws), ws, expected(counts, []))
        st0 = st.copy()
        t = I.call(st, S.g('mahjong.tile.definition', 'Tile'), [Const(int(k[0])), Const(k[1])], {}, None)
        o = S.run(lambda I, s: I.call_method(s, w, 'pick', [t], {}, None), st)
        if o.dead or o.raises and o.dead:
            rep.bad('picking %s' % k, where, 'fails')
            continue
        same_wall(S, rep, 'picking %s' % k, where, st0, o.st, ts)
        compare(S, rep, 'the wall after picking %s' % k, where, KINDS, weights_of(S, o.st, o.value) or [], expected(counts, [k]))
        again = weights_of(S, o.st, w)
        compare(S, rep, 'the old wall after picking %s' % k, where, KINDS, again or [], expected(counts, []))


def sampling(S, rep, where, dn, order, met):
    I = S.I
    st = S.state()
    lo = 2 if dn == 'first and last kind' else 3
    counts = counts_of(lo)
    for i in order:
        counts.setdefault(KINDS[i], leaf('copies of %s' % KINDS[i], lo, 4))
    ts = wall(S, st, counts)
    w = I.call(st, S.g(DIST, 'StaticWall'), [ts], {}, None)
    for round_ in ('first', 'second'):
        d = Draws(S, order)
        st0 = st.copy()

        def f(I, s):
            g = I.call_method(s, w, 'sample', [Const(len(order))], {}, None)
            return I.call(s, Bi('list'), [g], {}, None)
        o = S.run(f, st, intercepts={'ext:random.choices': d.choices})
        if o.dead:
            rep.decide(False if not d.strange else None, '%s: draws' % dn, where, 'no path through: %s' % [n for n, _ in S.exc(o)][:3])
            return
        for node, why in d.strange:
            rep.undecided('%s: draw' % dn, S.loc(node), why)
        if d.strange:
            return
        met |= {key_of(S, m[2]) for m in d.met}
        name = '%s sampling, draws %s' % (round_, dn)
        if not d.met:
            rep.undecided(name, where, 'no random choice met')
            return
        rep.decide(len(d.met) == len(order), name + ': one choice per draw', where, '%d choices for %d draws' % (len(d.met), len(order)))
        drawn = []
        for i, (names, ws, node, s) in enumerate(d.met[:len(order)]):
            judge(S, rep, '%s: draw %d' % (name, i + 1), S.loc(node), names, ws, expected(counts, drawn))
            drawn.append(KINDS[order[i]])
            rep.count('draws examined')
        got = seq(S, o.st, o.value)
        if got is not None:
            ns = []
            for t in got:
                x = o.st.simp(I.call(o.st, Bi('str'), [t], {}, None))
                ns.append(x.v if type(x) is Const else None)
            rep.decide(ns == drawn if None not in ns else None, name + ': the drawn tiles are handed out', where, '%s for %s' % (ns, drawn))
        same_wall(S, rep, name, where, st0, o.st, ts)
        compare(S, rep, name + ': the wall afterwards', where, KINDS, weights_of(S, o.st, w) or [], expected(counts, []))
        st = o.st


def key_of(S, node):
    from ..programs import node_key
    return node_key(S, node)


def simulation(S, rep, hand, order, met):
    I = S.I
    d = Draws(S, order)
    h = hooks([Const(hand), Const('2'), Const('3')])
    h['ext:random.choices'] = d.choices
    for c in ('NormalTypeWin', 'UniquePairs'):
        q = S.method_qual('mahjong.container.pattern.win', c, 'match')
        h[q] = lambda I, st, f, a, k, n: FALSE
    at = S.loc_of(S.g(DEMO, 'main'))
    o = S.run(lambda I, s: I.call(s, S.g(DEMO, 'main'), [], {}, None), S.state(), intercepts=h, steps=3000000)
    for node, why in d.strange:
        rep.undecided('simulation of %s: draw' % hand, S.loc(node), why)
    if d.strange:
        return
    if not d.met:
        rep.undecided('simulation of %s' % hand, at, 'no draw met: %s' % [n for n, _ in S.exc(o)][:3])
        return
    met |= {key_of(S, m[2]) for m in d.met}
    own = []
    digits = ''
    for ch in hand:
        if ch.isdigit():
            digits += ch
        else:
            own += [(x if x != '0' else '5') + ch for x in digits]
            digits = ''
    counts = {k: Const(4 - own.count(k)) for k in KINDS}
    rep.decide(len(d.met) == 6, 'simulation of %s: two draws in each of three experiments' % hand, at, '%d draws' % len(d.met))
    for i, (names, ws, node, s) in enumerate(d.met[:6]):
        drawn = [KINDS[order[i - 1]]] if i % 2 else []
        judge(S, rep, 'simulation of %s: draw %d of experiment %d' % (hand, i % 2 + 1, i // 2 + 1), '%s %s' % (S.loc(node), at), names, ws, expected(counts, drawn))
        rep.count('draws examined')
