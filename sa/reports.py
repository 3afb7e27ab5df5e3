"""Reports of constant games: scripts of games, the report built abstractly, and what each of its entries has to say."""
from .world import *
from .programs import Calls, hooks, CHECKER, CHECK
from . import finite

REASONING = 'mahjong.container.pattern.reasoning'
WIN = 'mahjong.container.pattern.win'
SUITS = 'mpsz'
CALLS = calls()


def name_of(n):
    return finite.tile_text(n)


def kind_name(n):
    k = n // 4
    return '%d%s' % (k % 9 + 1, SUITS[k // 9])


def plain_kind(text):
    return text.replace('0', '5')


class Script:
    """a record: the events of each game, as (kind, seat, argument)"""

    def __init__(self, name, players, deals):
        self.name, self.players, self.deals = name, players, deals

    def elements(self, I, s):
        from .checks.c32 import constant_head
        els = constant_head(I, s, self.players)
        for r, (oya, hands, dora_, events) in enumerate(self.deals):
            a = {'seed': ','.join(map(str, (r, 0, 0, 1, 2, dora_))), 'ten': ','.join(map(str, (250,) * self.players + (0,) * (4 - self.players))), 'oya': str(oya)}
            for p in range(4):
                a['hai%d' % p] = ','.join(map(str, hands[p])) if p < self.players else ''
            els.append(elem(I, s, 'INIT', **a))
            for e in events:
                els.append(self.element(I, s, e))
        return els

    def element(self, I, s, e):
        k, p, x = e
        if k == 'draw':
            return draw(I, s, p, x)
        if k == 'discard':
            return discard(I, s, p, x)
        if k == 'call':
            return call(I, s, p, CALLS[x].code)
        if k == 'dora':
            return dora(I, s, x)
        if k == 'reach':
            a = {'who': str(p), 'step': str(x)}
            if x == 2:
                a['ten'] = '250,250,240,250'
            return elem(I, s, 'REACH', **a)
        if k == 'bye':
            return bye(I, s, p)
        if k == 'win':
            from .checks.c32 import constant_agari
            return constant_agari(I, s, p, x, 7700)
        if k == 'end':
            from .checks.c32 import constant_agari
            return constant_agari(I, s, p, x, 7700, '411,51.1,302,-20.2,198,10.2,89,-41.1')
        if k == 'drawn':
            return elem(I, s, 'RYUUKYOKU', ba='0,0', sc='250,0,250,0,250,0,250,0')
        raise KeyError(k)

    def knowledge(self, me):
        """per game, per discard of the player: what was known just before it"""
        out = []
        for oya, hands, dora_, events in self.deals:
            total = set(range(136)) if self.players == 4 else {x for x in range(136) if not 4 <= x < 32}
            hand, seen, melds, richii, mine = set(hands[me]), {dora_}, [], False, []
            for e in events:
                k, p, x = e
                if k == 'reach':
                    richii = True
                if k == 'discard' and p == me:
                    mine.append(dict(hand=set(hand), unseen=total - seen - hand, melds=[dict(m) for m in melds], richii=richii, tile=x))
                if k == 'draw' and p == me:
                    hand.add(x)
                elif k == 'discard':
                    seen.add(x)
                    if p == me:
                        hand.discard(x)
                elif k == 'dora':
                    seen.add(x)
                elif k == 'call':
                    c = CALLS[x]
                    seen |= c.own
                    if p == me:
                        hand -= c.own
                        if c.kind == 'added':
                            for m in melds:
                                if m['kind'] == 'pon' and {t // 4 for t in m['tiles']} == {t // 4 for t in c.own}:
                                    m['kind'] = 'added'
                                    m['tiles'] = m['tiles'] | c.own
                                    break
                        else:
                            melds.append(dict(kind=c.kind, tiles=c.own | c.claimed))
            out.append(mine)
        return out


class Pool:
    """tiles not yet used, in a fixed mixed order"""

    def __init__(self, used, players, shift=0):
        self.xs = [x for x in [(i * 53 + shift) % 136 for i in range(136)] if x not in used and (players == 4 or not 4 <= x < 32)]

    def take(self, n=1):
        r, self.xs = self.xs[:n], self.xs[n:]
        return r

    def one(self):
        return self.take()[0]


def turns(pool, seats, own=None):
    out = []
    for p in seats:
        t = pool.one()
        out += [('draw', p, t), ('discard', p, t)]
    return out


def calling(me):
    """the player calls, others call from the player, indicators are turned over"""
    nxt, other, left = (me + 1) % 4, (me + 2) % 4, (me + 3) % 4
    special = set()
    for c in ('chi', 'pon', 'added', 'closed kan', 'open kan'):
        special |= CALLS[c].own | CALLS[c].claimed
    pool = Pool(special, 4, me * 7)
    hands = {me: sorted(CALLS['pon'].own | CALLS['chi'].own | CALLS['closed kan'].own), left: sorted(CALLS['chi'].claimed),
             nxt: sorted(CALLS['pon'].claimed), other: sorted(CALLS['open kan'].own)}
    extra = {p: pool.take(13 - len(hands[p])) for p in range(4)}
    for p in range(4):
        hands[p] = extra[p][:2] + hands[p] + extra[p][2:]
    f = extra[me]
    quad = list(CALLS['open kan'].claimed)[0]
    ev = [('draw', me, quad), ('discard', me, quad), ('call', other, 'open kan')]
    a = pool.one()
    ev += [('draw', other, a), ('dora', None, pool.one()), ('discard', other, a)]
    b = pool.one()
    ev += [('draw', left, b), ('discard', left, list(CALLS['chi'].claimed)[0]), ('call', me, 'chi'), ('discard', me, f[0])]
    c = pool.one()
    ev += [('draw', nxt, c), ('reach', nxt, 1), ('discard', nxt, list(CALLS['pon'].claimed)[0]), ('reach', nxt, 2), ('call', me, 'pon'), ('discard', me, f[1])]
    ev += turns(pool, [nxt, other, left])
    d, e = pool.take(2)
    ev += [('draw', me, d), ('call', me, 'closed kan'), ('draw', me, e), ('dora', None, pool.one()), ('discard', me, d)]
    ev += turns(pool, [nxt]) + [('bye', other, None)] + turns(pool, [other, left])
    add = list(CALLS['added'].own)[0]
    g = pool.one()
    ev += [('draw', me, add), ('call', me, 'added'), ('dora', None, pool.one()), ('draw', me, g), ('discard', me, g)]
    ev += turns(pool, [nxt, other, left]) + [('draw', me, pool.one()), ('win', me, me)]
    return (me, hands, pool.one(), ev)


def four_calls(me):
    """the player calls all four sets and goes on discarding with one tile in hand"""
    nxt, other, left = (me + 1) % 4, (me + 2) % 4, (me + 3) % 4
    names = ('chi', 'pon', 'closed kan', 'open kan')
    pool = Pool(set().union(*(CALLS[c].own | CALLS[c].claimed for c in names)), 4, me * 11 + 2)
    hands = {me: sorted(set().union(*(CALLS[c].own for c in names)))}
    hands[me] += pool.take(13 - len(hands[me]))
    f = hands[me][-2:]
    for p, c in ((left, 'chi'), (nxt, 'pon'), (other, None)):
        hands[p] = pool.take(13 - bool(c)) + (sorted(CALLS[c].claimed) if c else [])
    quad = list(CALLS['open kan'].claimed)[0]
    ev = turns(pool, [nxt, other])
    ev += [('draw', left, pool.one()), ('discard', left, list(CALLS['chi'].claimed)[0]), ('call', me, 'chi'), ('discard', me, f[0])]
    ev += [('draw', nxt, pool.one()), ('discard', nxt, list(CALLS['pon'].claimed)[0]), ('call', me, 'pon'), ('discard', me, f[1])]
    ev += turns(pool, [nxt, other, left])
    d, e = pool.take(2)
    ev += [('draw', me, d), ('call', me, 'closed kan'), ('draw', me, e), ('dora', None, pool.one()), ('discard', me, d)]
    ev += turns(pool, [nxt])
    g = pool.one()
    ev += [('draw', other, quad), ('discard', other, quad), ('call', me, 'open kan'), ('draw', me, g), ('dora', None, pool.one()), ('discard', me, e)]
    ev += turns(pool, [nxt, other, left])
    h = pool.one()
    ev += [('draw', me, h), ('discard', me, g)] + turns(pool, [nxt, other, left]) + [('draw', me, pool.one()), ('end', me, me)]
    return (left, hands, pool.one(), ev)


def quiet(me, players, shift, richii=None, red=False, last='end'):
    """draws and discards, and a declared richii of one seat"""
    pool = Pool({16, 52, 88} if red else set(), players, shift)
    hands = {p: pool.take(13) for p in range(players)}
    if red:
        hands[me][4], hands[me][7] = 52, 88
        for i, x in ((52, 4), (88, 7)):
            pass
    mine = list(hands[me])
    ev = []
    for turn in range(3):
        for k in range(players):
            p = k
            t = pool.one()
            ev.append(('draw', p, t))
            if richii == p and turn == 1:
                ev.append(('reach', p, 1))
            if p == me:
                x = mine[(4, 9, 7)[turn]] if turn != 2 or red else t
                ev.append(('discard', p, x))
            else:
                ev.append(('discard', p, t if turn % 2 else hands[p][turn]))
            if richii == p and turn == 1:
                ev.append(('reach', p, 2))
        if turn == 1:
            ev.append(('dora', None, pool.one()))
    w = (me + 1) % players
    ev.append((last, w, me) if last != 'drawn' else ('drawn', None, None))
    return (shift % players, hands, pool.one(), ev)


def north(me):
    """three players: the player puts norths aside and calls a triplet"""
    nxt, other = (me + 1) % 3, (me + 2) % 3
    special = {121} | CALLS['pon'].own | CALLS['pon'].claimed
    pool = Pool(special, 3, me * 5 + 1)
    hands = {me: [121] + sorted(CALLS['pon'].own), nxt: sorted(CALLS['pon'].claimed), other: []}
    for p in range(3):
        hands[p] = pool.take(13 - len(hands[p])) + hands[p]
    f = hands[me]
    a, b = pool.take(2)
    ev = [('draw', me, a), ('call', me, 'north'), ('draw', me, b), ('discard', me, b)]
    c = pool.one()
    ev += [('draw', nxt, c), ('discard', nxt, list(CALLS['pon'].claimed)[0]), ('call', me, 'pon'), ('discard', me, f[0])]
    ev += turns(pool, [nxt, other])
    d = pool.one()
    ev += [('draw', me, d), ('discard', me, f[1]), ('reach', nxt, 1)] + turns(pool, [nxt]) + [('reach', nxt, 2)] + turns(pool, [other])
    e = pool.one()
    ev += [('draw', me, e), ('discard', me, e), ('end', nxt, me)]
    return (other, hands, pool.one(), ev)


def scripts(me, players):
    out = []
    if players == 3:
        out.append(Script('a game with norths and a triplet', 3, [north(me)]))
    if players == 4:
        out.append(Script('a game with calls, then a quiet one', 4, [calling(me), quiet(me, 4, me + 3)]))
    out.append(Script('an own riichi, then a game with red fives', players, [quiet(me, players, 11 + me, richii=me, last='win'), quiet(me, players, 5 + me, red=True)]))
    out.append(Script('riichi of another player, drawn game, another game', players, [quiet(me, players, 2 + me, richii=(me + 1) % players, last='drawn'),
                                                                                     quiet(me, players, 19 + me, red=True)]))
    if players == 4:
        out.append(Script('a game with four calls', 4, [four_calls(me)]))
    return out


# ---- the report

def hand_counts(S, st, v):
    """{tile text: count} of a constant collection of tiles"""
    v = st.simp(v)
    if type(v) is not Ref or m_coll.kind_of(S.I, st, v) != 'dict':
        return None
    out = {}
    for e in st.get(v.oid).data.values():
        k = st.simp(S.I.call(st, Bi('str'), [e.k], {}, None))
        n = st.simp(e.v)
        if type(k) is not Const or type(n) is not Const or e.g:
            return None
        out[k.v] = out.get(k.v, 0) + n.v
    return out


def tile_object(S, st, text):
    mod = 'mahjong.tile.definition'
    return S.I.call(st, S.g(mod, 'AkaTile' if text[0] == '0' else 'Tile'), [Const(int(text[0])), Const(text[1])], {}, None)


def weight(tile):
    """a number for every kind, so that hands differing in a tile get different answers"""
    t = plain_kind(tile)
    return 9 * SUITS.index(t[1]) + int(t[0])


def total(hand):
    return sum(weight(t) * n for t, n in hand.items())


def step_of(kind, hand):
    n = total(hand)
    return (n // 2 + (1 if kind == 'pairs' and n % 3 else 0)) % 4


def useful_of(kind, hand):
    n = total(hand) + (3 if kind == 'pairs' else 0)
    ks = ['%d%s' % (a, b) for b in 'mps' for a in range(1, 10)] + ['%dz' % a for a in range(1, 8)]
    return sorted({ks[n * 7 % 34], ks[(n * 5 + 11) % 34], ks[n * 3 % 34]}) if n % 5 else []


class Judge:
    """stand-in for the searches: a fixed function of the hand; keeps what it was asked"""

    def __init__(self, S, step=step_of, useful=useful_of):
        self.S, self.asked, self.unclear, self.step, self.useful = S, [], [], step, useful

    def win(self, I, s, self_):
        """(kind, melds wanted) of the pattern of a calculator"""
        a = s.get(self_.oid).attrs if type(self_) is Ref else {}
        for v in a.values():
            v = s.simp(v) if isinstance(v, V) else v
            if type(v) is Ref and s.get(v.oid).kind == 'inst':
                n = S_name(self.S, s.get(v.oid).cls)
                if n == 'UniquePairs':
                    return 'pairs', None
                if n == 'NormalTypeWin':
                    m = s.get(v.oid).attrs.get('_melds')
                    m = s.simp(m) if isinstance(m, V) else None
                    return 'normal', m.v if type(m) is Const else None
        return '?', None

    def hooks(self):
        S = self.S

        def ask(how, I, s, args, kwargs, node):
            self_, hand = args[0], (args[1] if len(args) > 1 else kwargs.get('hand'))
            kind, m = self.win(I, s, self_)
            hc = hand_counts(S, s, hand) if hand is not None else None
            self.asked.append((how, kind, m, hc, node))
            if hc is None or kind == '?':
                self.unclear.append(node)
                return kind, None, hand
            return kind, by_kind(hc), s.simp(hand)

        def one(I, s, f, args, kwargs, node):
            kind, hc, _ = ask('one', I, s, args, kwargs, node)
            return NotImplemented if hc is None else Tup(tuple(self.answer(I, s, kind, hc)))

        def batch(I, s, f, args, kwargs, node):
            kind, hc, hand = ask('batch', I, s, args, kwargs, node)
            if hc is None:
                return NotImplemented
            out = []
            for e in list(s.get(hand.oid).data.values()):
                n = plain_kind(s.simp(I.call(s, Bi('str'), [e.k], {}, None)).v)
                out.append(Tup((e.k,) + tuple(self.answer(I, s, kind, less(hc, n)))))
            return I.call(s, Bi('iter'), [I.new_list(s, out)], {}, node)

        out = {}
        for c in ('HeuristicPatternMatchWaiting', 'PatternMatchWaiting', 'BruteForceWaiting', 'Waiting'):
            if S.has(REASONING, c):
                out[S.method_qual(REASONING, c, 'waiting_and_useful_tiles')] = one
                out[S.method_qual(REASONING, c, 'batch_waiting_and_useful_tiles')] = batch
        return out

    def answer(self, I, s, kind, hc):
        us = [tile_object(self.S, s, x) for x in self.useful(kind, hc)]
        return [Const(self.step(kind, hc)), I.call(s, Bi('set'), [I.new_list(s, us)], {}, None)]


def by_kind(hc):
    out = {}
    for k, n in hc.items():
        k = plain_kind(k)
        out[k] = out.get(k, 0) + n
    return {k: n for k, n in out.items() if n}


def less(hc, k):
    out = dict(hc)
    out[k] -= 1
    return {k: n for k, n in out.items() if n}


def S_name(S, c):
    if type(c) is Ref:
        o = S.base.get(c.oid)
        return getattr(o.data, 'name', None) or str(getattr(o.data, 'qual', '')).split(':')[-1].split('.')[-1]
    return getattr(c, 'name', None)


class Report_:
    pass


def report(S, script, me, judge, listen=None, entry='checker'):
    """games (objects) handed to the page, their state"""
    box = Report_()
    box.kwargs = None
    c = Calls()
    events = []

    def hear(k, d):
        c(k, d)
        if listen:
            listen(k, d)
        if k == 'ext_call' and d['name'] == '.render':
            box.kwargs, box.at, box.rst = {}, d['node'], d['st'].copy()
            for a in d['args']:
                a = box.rst.simp(a) if isinstance(a, V) else a
                if type(a) is Ref and m_coll.kind_of(S.I, box.rst, a) == 'dict':
                    for e in box.rst.get(a.oid).data.values():
                        if type(box.rst.simp(e.k)) is Const:
                            box.kwargs[box.rst.simp(e.k).v] = e.v
            box.kwargs.update(d['kwargs'])
    h = hooks()
    h.update(judge.hooks())

    def f(I, s):
        els = script.elements(I, s)
        r = I.call(s, S.g('mahjong.record.reader', 'TenhouRecord'), [I.new_list(s, els)], {}, None)
        ch = I.call(s, S.g(CHECKER, 'TenhouChecker'), [], {}, None)
        return I.call_method(s, ch, 'parse', [r], {'player_index': Const(me)}, None)
    box.out = S.run(f, S.state(), listen=hear, intercepts=h, steps=3000000)
    box.calls = c
    return box


def attr(S, st, v, name):
    v = st.simp(v) if isinstance(v, V) else v
    if type(v) is not Ref:
        return None
    a = st.get(v.oid).attrs.get(name)
    return st.simp(a) if isinstance(a, V) else None


def read(S, st, v, depth=4):
    """Python value of a constant structure, or None marker"""
    try:
        return plain(S, st, v)
    except NotPlain:
        return None
