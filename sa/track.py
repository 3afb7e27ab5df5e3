"""Trackers of a game in progress: event sequences and what each tracker has to report after them."""
from .world import *
from .effects import *
from . import finite

STATE = 'mahjong.record.state'
PLAYER = 'mahjong.record.player'


# ---- events: (kind, seat, argument)

def build(I, st, e, players=4):
    k, p, x = e
    if k == 'init':
        return init(I, st, p, players, tag=x)
    if k == 'draw':
        return draw(I, st, p, x)
    if k == 'discard':
        return discard(I, st, p, x)
    if k == 'call':
        return call(I, st, p, CALLS[x].code)
    if k == 'dora':
        return dora(I, st, x)
    if k == 'reach':
        return reach_event(I, st, p, x)
    if k == 'agari':
        return agari(I, st, p, x, players, tag='w%s%s' % (p, x))
    if k == 'ryuukyoku':
        return ryuukyoku(I, st, players, tag='r', kind=x)
    if k == 'bye':
        return bye(I, st, p)
    if k == 'go':
        return go(I, st, players)
    if k == 'taikyoku':
        return taikyoku(I, st, p)
    if k == 'shuffle':
        return shuffle(I, st)
    if k == 'un':
        return un(I, st, players, tag='again')
    raise KeyError(k)


from .world import reach as reach_event                     # noqa: E402
from .effects import reach as reachable                     # noqa: E402

CALLS = calls()
CLAIMED = {x for c in CALLS.values() for x in c.claimed}
OWN = sorted({x for c in CALLS.values() for x in c.own} - CLAIMED)
UNSEEN4 = list(range(136))
UNSEEN3 = [x for x in range(136) if not 4 <= x < 32]


def show(e):
    k, p, x = e
    t = {'init': 'a deal', 'dora': 'a new indicator', 'ryuukyoku': 'a drawn game', 'go': 'the game type', 'shuffle': 'the seed', 'un': 'the players',
         'taikyoku': 'the first dealer'}.get(k)
    if t:
        return t
    if k == 'call':
        return '%s by seat %d' % (x, p)
    if k == 'agari':
        return 'win of seat %d from seat %d' % (p, x)
    if k == 'reach':
        return 'riichi step %d of seat %d' % (x, p)
    return '%s of seat %d' % (k, p)


class Model:
    """what the five trackers have to report"""

    def __init__(self, me, players=4):
        self.me, self.players = me, players
        self.hand, self.melds, self.discards, self.dora = {}, [], [], []
        self.unseen = {Const(x): () for x in (UNSEEN4 if players == 4 else UNSEEN3)}

    def drop(self, m, v):
        v = v if isinstance(v, V) else Const(v)
        for u in list(m):
            c = eq(u, v)
            if type(c) is Const:
                if c.v:
                    del m[u]
            elif (c, False) not in m[u]:
                m[u] = m[u] + ((c, False),)

    def step(self, e):
        k, p, x = e
        mine = p == self.me
        if k == 'init':
            self.__init__(self.me, self.players)
            self.hand = {leaf('hai%d_%d%s' % (self.me, i, x), 0, 135): () for i in range(13)}
            self.dora = [leaf('dora' + x, 0, 135)]
            self.drop(self.unseen, self.dora[0])
        elif k == 'draw' and mine:
            self.hand[x if isinstance(x, V) else Const(x)] = ()
        elif k == 'discard':
            self.drop(self.unseen, x)
            if mine:
                self.drop(self.hand, x)
                self.discards.append(x)
        elif k == 'call':
            c = CALLS[x]
            for t in c.own:
                self.drop(self.unseen, t)
                if mine:
                    self.drop(self.hand, t)
            if mine:
                if c.kind == 'added':
                    kinds = {t // 4 for t in c.own}
                    self.melds = [('quad from triplet', m[1] | c.own, m[2], m[3]) if m[0].startswith('pon') and {t // 4 for t in m[1]} == kinds else m
                                  for m in self.melds]
                else:
                    self.melds = self.melds + [(c.kind, frozenset(c.own), frozenset(c.claimed), (p + c.frm) % 4)]
        elif k == 'dora':
            self.dora = self.dora + [x]
            self.drop(self.unseen, x)


def eq(a, b):
    """condition that two tile numbers are equal"""
    d = n_sub(a if isinstance(a, V) else Const(a), b if isinstance(b, V) else Const(b))
    if type(d) is Const:
        return Const(d.v == 0)
    return Term('eq0', (d,), 'bool')


# ---- comparing

def atoms(v, out):
    t = type(v)
    if t is Const:
        return
    if t is Ite:
        atoms(v.c, out), atoms(v.a, out), atoms(v.b, out)
    elif t is Term and v.op in ('not', 'and', 'or'):
        for x in v.args:
            atoms(x, out)
    else:
        out[key(v)] = None


def key(v):
    """an equality of numbers up to its sign"""
    if type(v) is Term and v.op == 'eq0':
        a = v.args[0]
        b = n_sub(Const(0), a)
        return min((a, b), key=lambda t: getattr(t, 'n', 0)), 'eq0'
    return v


def truth(v, env):
    t = type(v)
    if t is Const:
        return bool(v.v)
    if t is Ite:
        return truth(v.a if truth(v.c, env) else v.b, env)
    if t is Term and v.op == 'not':
        return not truth(v.args[0], env)
    if t is Term and v.op == 'and':
        return all(truth(x, env) for x in v.args)
    if t is Term and v.op == 'or':
        return any(truth(x, env) for x in v.args)
    return env[key(v)]


def same_condition(g, h):
    """two conjunctions of literals are the same function of their atoms"""
    if set(g) == set(h):
        return True
    names = {}
    for c, _ in tuple(g) + tuple(h):
        atoms(c, names)
    names = list(names)
    if len(names) > 12:
        return None
    for bits in range(1 << len(names)):
        env = {n: bool(bits >> i & 1) for i, n in enumerate(names)}
        if all(truth(c, env) == p for c, p in g) != all(truth(c, env) == p for c, p in h):
            return None
    return True


def holds(g, env, memo):
    return all(bool(finite.ev(c, env, memo)) == p for c, p in g)


def same_members(S, st, got, want, fixed=()):
    """the set `got` has exactly the members of the map `want`: True / False / None, text"""
    got = st.simp(got)
    if type(got) is not Ref or m_coll.kind_of(S.I, st, got) not in ('set', 'list'):
        return (False, 'it is %r' % (got,)) if type(got) in (Const, Tup) else (None, 'unknown value')
    es = S.I.entries(st, got)
    if es is None or any(e.many for e in es):
        return None, 'members unknown'
    have = {}
    dup = False
    for e in es:
        v = st.simp(e.v)
        dup = dup or v in have
        have[v] = tuple(e.g)
    res = True
    for v in set(have) | set(want):
        if v not in have or v not in want or dup:
            res = None
            break
        if same_condition(have[v], want[v]) is not True:
            res = None
            break
    if res:
        return True, ''
    ls = set()
    for m in (have, want):
        for v, g in m.items():
            ls |= leaves_of(v)
            for c, _ in g:
                ls |= leaves_of(c)
    ls = sorted(ls, key=lambda t: t.n)
    if any(l.ty != 'int' for l in ls):
        return None, 'members unknown'
    base = [l for l in ls if not str(l.args[0]).startswith('out')]
    outs = [l for l in ls if str(l.args[0]).startswith('out')]
    for k in range(64):
        # no tile is in a hand and claimed from somebody else
        free = [x for x in range(136) if x not in CLAIMED]
        env = {l: free[(7 * i + 3 + 5 * k) % len(free)] for i, l in enumerate(base)}
        for i, l in enumerate(base[:len(OWN)] if k % 2 else ()):
            env[l] = OWN[(i + k) % len(OWN)]
        pool = [env[l] for l in base] + [0, 135, 37, 46, 55, 124]
        for j, l in enumerate(outs):
            env[l] = pool[(k * 3 + j) % len(pool)]
        memo = {}
        try:
            a = {finite.ev(v, env, memo) for e in es for v in [st.simp(e.v)] if holds(tuple(e.g), env, memo)}
            b = {finite.ev(v, env, memo) for v, g in want.items() if holds(g, env, memo)}
        except Exception as x:
            return None, 'members unknown (%s)' % x
        if a != b:
            miss, extra = sorted(b - a), sorted(a - b)
            return False, 'with %s: %s' % (', '.join('%s=%d' % (l.args[0], env[l]) for l in outs[:3] + base[-1:]),
                                           '; '.join(t for t in ('missing %s' % miss[:4] if miss else '', 'extra %s' % extra[:4] if extra else '') if t))
    return None, 'conditions cannot be compared'


MELD_CLASSES = {'chi': 'Flush', 'pon': 'Triplet', 'pon unused first': 'Triplet', 'added': 'TenhouAddedKan', 'north': 'Kita', 'closed kan': 'TenhouKan',
                'open kan': 'TenhouKan', 'quad from triplet': 'KanFromTriplet'}


def same_melds(S, st, got, want):
    es = elements(S, st, got)
    if es is None or any(l or many for l, _, many in es):
        return None, 'melds unknown'
    if len(es) != len(want):
        return False, '%d melds instead of %d' % (len(es), len(want))
    res = True
    for (_, m, _), (kind, own, claimed, frm) in zip(es, want):
        c = st.get(m.oid).cls if type(m) is Ref else None
        if type(c) is not Ref:
            res = None
            continue
        for attr, w in (('self_tiles', own), ('borrowed_tiles', claimed)):
            v = st.simp(S.I.get_attr(st, m, attr, None))
            r, why = same_members(S, st, v, {Const(t): () for t in w})
            if r is False:
                return False, '%s of the %s: %s' % (attr, kind, why)
            res = res and r
        f = st.simp(S.I.get_attr(st, m, 'from_who', None))
        if type(f) is Const:
            if f.v != frm and claimed:
                return False, 'the %s comes from seat %r instead of %d' % (kind, f.v, frm)
        else:
            res = None
    return res, ''


def same_list(S, st, got, want):
    got = st.simp(got)
    r = same(S, st, got, list(want))
    return r, '' if r else 'it reports %s instead of %s' % (render(S, st, got), list(want))


def render(S, st, v):
    es = S.I.entries(st, v) if type(v) is Ref else None
    return '[%s]' % ', '.join(repr(st.simp(e.v)) for e in es[:6]) if es is not None else repr(v)


TRACKERS = {
    'hand': ('PlayerHand', lambda S, st, v, m: same_members(S, st, v, m.hand)),
    'melds': ('PlayerMeld', lambda S, st, v, m: same_melds(S, st, v, m.melds)),
    'discards': ('DiscardTiles', lambda S, st, v, m: same_list(S, st, v, m.discards)),
    'dora indicators': ('DoraIndicators', lambda S, st, v, m: same_list(S, st, v, m.dora)),
    'unseen tiles': ('InvisibleTiles', lambda S, st, v, m: same_members(S, st, v, m.unseen)),
}


def player(I, S, st, p):
    return I.call(st, S.g(PLAYER, 'TenhouPlayer'), [Const(p), Const('name%d' % p), Const(10), Const(1500.5), Const('M')], {}, None)


def tracker(I, S, st, name, me, players):
    c = S.g(STATE, TRACKERS[name][0])
    if name == 'dora indicators':
        return I.call(st, c, [], {}, None)
    if name == 'unseen tiles':
        return I.call(st, c, [Const(players)], {}, None)
    return I.call(st, c, [me], {}, None)


def singles(players=4, all_seats=True):
    """one event of every kind by every seat"""
    out = []
    for p in range(players):
        out += [('draw', p, leaf('in%d' % p, 0, 135)), ('discard', p, leaf('out%d' % p, 0, 135)), ('draw', p, 0), ('discard', p, 0)]
        out += [('call', p, c) for c in (CALLS if players == 4 else [c for c in CALLS if c != 'chi'])]
        out += [('reach', p, 1), ('reach', p, 2), ('bye', p, None), ('agari', p, p), ('agari', p, (p + 1) % players), ('taikyoku', p, None)]
    out += [('dora', None, leaf('outdora', 0, 135)), ('dora', None, 0), ('ryuukyoku', None, None), ('ryuukyoku', None, 'yao9'), ('go', None, None),
            ('un', None, None), ('shuffle', None, None), ('init', 0, 'b'), ('init', players - 1, 'b')]
    return out


def chains(me, players=4):
    """(name, events before, events whose effect is looked at one by one)"""
    nxt = (me + 1) % players
    full = [('init', nxt, ''), ('draw', me, leaf('in', 0, 135)), ('discard', me, leaf('out', 0, 135)), ('discard', nxt, leaf('outother', 0, 135)),
            ('call', me, 'pon'), ('dora', None, leaf('outdora1', 0, 135)), ('call', me, 'open kan')]
    return [('before the first deal', [], singles(players)), ('after a deal', [('init', me, '')], singles(players)), ('in mid-game', full, singles(players)),
            ('after another triplet', [('init', me, ''), ('call', me, 'pon unused first'), ('call', me, 'pon'), ('call', nxt, 'pon unused first')],
             [('call', me, 'added'), ('call', nxt, 'added'), ('call', me, 'north'), ('call', me, 'chi')])]
