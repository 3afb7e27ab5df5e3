"""C20: paifu rows attribute every event to the right player and tiles."""
from ..track import *
from . import c32

RULE = ('Abstract interpretation of the paifu export: for every kind of event, every seat (and pair of seats) and every kind of call the rows are '
        'compared with the ones the fields of the event define (kind, acting player, player it came from, tiles as multisets, scores); draws, '
        'discards, indicators carry symbolic tile numbers; every cell has to be text; the rows of games and records have to be the rows of their '
        'events in order, each with the name of its round, followed by the final scores by seat.')

ASSUMPTIONS = ['column names and kind names are the ones the export has used since the first version (surrounding blanks ignored)']

GAMETYPE = {4: 169, 3: 185}


def run(rep):
    S = Session(rep)
    jobs = []
    for players in (4, 3):
        for p in range(players):
            jobs += [('draw', players, p, x) for x in (leaf('t', 0, 135), 0, 16, 52, 88, 135)]
            jobs += [('discard', players, p, x) for x in (leaf('t', 0, 135), 0, 16, 52, 88, 135)]
            jobs += [('call', players, p, c) for c in CALLS if players == 4 or c not in ('chi',)]
            jobs += [('reach', players, p, 1), ('reach', players, p, 2)]
            jobs += [('agari', players, p, q) for q in range(players)]
        jobs += [('init', players, p, None) for p in range(players)]
        jobs += [('dora', players, None, leaf('t', 0, 135)), ('dora', players, None, 0), ('dora', players, None, 52)]
        jobs += [('ryuukyoku', players, None, k) for k in [None] + sorted(DRAWN)]
        jobs += [('bye', players, p, None) for p in range(players)]
    jobs += [('call code', 4, p, c) for p in range(4) for c in more_calls()]
    rep.parallel(jobs, lambda j: single(S, rep, *j), limit=60)
    recs = [(players, r, kinds) for players in (4, 3) for r in range(8) for kinds in (('win by draw',), ('two wins', 'draw', 'win by discard'))]
    rep.parallel(recs, lambda j: whole(S, rep, *j), limit=60)


DRAWN = {'kaze4': '四風連打', 'yao9': '九種九牌', 'ron3': '三家和了', 'reach4': '四家立直', 'kan4': '四槓散了', 'nm': '流局滿貫'}


def more_calls():
    """calls of other suits and numbers, claimed from every side"""
    out = []
    for i, (suit, num, which) in enumerate(((0, 0, 0), (2, 6, 2), (0, 3, 1), (1, 2, 0))):
        cp = [(0, 1, 2), (3, 3, 3), (0, 0, 0), (2, 1, 0)][i]
        ts = [36 * suit + 4 * (num + k) + cp[k] for k in range(3)]
        out.append(Call('chi', chi_code(3, suit, num, which, cp), [t for k, t in enumerate(ts) if k != which], [ts[which]], 3))
    for kind, which, unused, frm in ((0, 0, 3, 1), (4, 1, 1, 2), (33, 2, 0, 3), (22, 0, 2, 2)):
        ts = [4 * kind + c for c in range(4) if c != unused]
        out.append(Call('pon', pon_code(frm, kind, which, unused), [t for k, t in enumerate(ts) if k != which], [ts[which]], frm))
        out.append(Call('added', added_code(frm, kind, which, unused), [4 * kind + unused], [], frm))
        out.append(Call('closed kan', kan_code(0, 4 * kind), [4 * kind + c for c in range(4)], [], 0))
        out.append(Call('open kan', kan_code(frm, 4 * kind + unused), ts, [4 * kind + unused], frm))
    return out + [Call('north', north_code(120 + c), [120 + c], [], 0) for c in range(4)]


def rows_of(S, st, v):
    """[{column: value}] or None"""
    es = seq(S, st, v)
    if es is None:
        return None
    out = []
    for r in es:
        if type(r) is not Ref or m_coll.kind_of(S.I, st, r) != 'dict':
            return None
        d = {}
        for e in st.get(r.oid).data.values():
            k = st.simp(e.k)
            if e.g or type(k) is not Const:
                return None
            d[k.v] = st.simp(e.v)
        out.append(d)
    return out


class TilesOf:
    """text made of the tiles with these numbers, any order"""

    def __init__(self, xs):
        self.xs = sorted(finite.tile_text(x) for x in xs)

    def __repr__(self):
        return 'the tiles ' + ' '.join(self.xs)


class Number:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'the number %d' % self.v


def cell(st, got, want):
    got = st.simp(got)
    if isinstance(want, TilesOf):
        if type(got) is not Const:
            return None
        if not isinstance(got.v, str):
            return False
        t = got.v
        return sorted(t[i:i + 2] for i in range(0, len(t), 2)) == want.xs
    if isinstance(want, Number):
        if type(got) is not Const:
            return None
        try:
            return isinstance(got.v, str) and int(got.v) == want.v
        except ValueError:
            return False
    if isinstance(want, str):
        if type(got) is Const:
            return isinstance(got.v, str) and got.v.strip() == want.strip()
        want = Const(want)
    return same_value(got, want, tuple(st.guards))


def is_text(v):
    if type(v) is Const:
        return isinstance(v.v, str)
    if type(v) is Ite:
        a, b = is_text(v.a), is_text(v.b)
        return False if a is False or b is False else (True if a and b else None)
    ty = getattr(v, 'ty', None)
    if ty == 'str':
        return True
    return False if ty in ('int', 'float', 'bool', 'tile') or type(v) in (Ref, Tup) else None


CALL_ROWS = {'chi': 'CHI', 'pon': 'PENG', 'added': 'GANG', 'north': 'KITA', 'closed kan': 'ANGANG', 'open kan': 'MINGGANG'}


def init_small(I, s, oya, players):
    return c32.constant_init(I, s, oya, players, (2, 1, 3, 0, 4, 88), (250, 310, 190, 240))


def expected(kind, players, p, x):
    if kind == 'init':
        ten = (250, 310, 190, 240)
        rows = [{'event_type': 'INIT%d' % (i + 1), 'player': str(i), 'player_see': TilesOf(c32.hand(i)), 'score': Number(ten[i] * 100)} for i in range(players)]
        return rows + [{'event_type': 'DORA', 'player_see': finite.tile_text(88), 'player_show': finite.tile_text(88)},
                       {'event_type': 'ROUND', 'score': Number(3000)}]
    if kind == 'draw':
        return [{'event_type': 'DRAW', 'player': str(p), 'player_see': tt(x)}]
    if kind == 'discard':
        return [{'event_type': 'DISCARD', 'player': str(p), 'player_show': tt(x)}]
    if kind == 'dora':
        return [{'event_type': 'DORA', 'player_see': tt(x), 'player_show': tt(x)}]
    if kind in ('call', 'call code'):
        c = CALLS[x] if kind == 'call' else x
        r = {'event_type': CALL_ROWS[c.kind], 'player': str(p), 'player_show': TilesOf(c.own), 'player_open': TilesOf(c.own | c.claimed)}
        if c.kind != 'north':
            r['origin'] = None if c.kind in ('closed kan', 'added') else str((p + c.frm) % 4)
        return [r]
    if kind == 'reach':
        if x == 1:
            return [{'event_type': 'CALLRICHI', 'player': str(p)}]
        return [{'event_type': 'RICHI', 'player': str(p)}, {'event_type': 'SCORE', 'player': str(p), 'score': Number(-1000)}]
    if kind == 'agari':
        return [{'event_type': 'WIN', 'player': str(p), 'origin': str(x)}]
    if kind == 'ryuukyoku':
        return [{'event_type': 'EVEN', 'origin': DRAWN.get(x, '')}]
    return None


def single(S, rep, kind, players, p, x):
    T = S.g(EV, 'TenhouEvent')
    f = S.I.class_attr(S.base, T, 'to_paifu')
    at = S.loc_of(f) if isinstance(f, V) else S.where_class(T)
    if kind == 'call code':
        n = 'rows of %s by seat %d, tiles %s from %s, from side %d' % (x.kind, p, sorted(x.own), sorted(x.claimed), x.frm)
    else:
        n = 'rows of %s (%d players)%s' % (show((kind, p, x)), players, '' if kind != 'draw' and kind != 'discard' or not isinstance(x, int) else ' tile %d' % x)

    def go_(I, s):
        if kind == 'init':
            e = init_small(I, s, p, players)
        elif kind == 'call code':
            e = call(I, s, p, x.code)
        else:
            e = build(I, s, (kind, p, x), players)
        e = wrap(S, s, [e])[0]
        return I.call_method(s, e, 'to_paifu', [], {}, None)
    o = S.run(go_, S.state(), intercepts=STUBS)
    if c32.dead(S, rep, o, n, at):
        return
    compare(S, rep, n, at, o.st, o.value, expected(kind, players, p, x))


def compare(S, rep, n, at, st, value, want):
    rows = rows_of(S, st, value)
    if rows is None:
        return rep.undecided(n, at, 'rows unknown')
    if want is not None:
        rep.decide(len(rows) == len(want), n + ': number of rows', at, '%d rows instead of %d' % (len(rows), len(want)))
    for i, r in enumerate(rows):
        for c, v in sorted(r.items(), key=repr):
            rep.decide(is_text(v), '%s: row %d, %s is text' % (n, i, c), at, 'it is %r' % (v,))
    for i, (r, w) in enumerate(zip(rows, want or [])):
        for c, x in w.items():
            if c not in r:
                rep.bad('%s: row %d, %s' % (n, i, c), at, 'there is no such cell')
            elif x is not None:
                rep.decide(cell(st, r[c], x), '%s: row %d, %s' % (n, i, c), at, 'it is %r instead of %r' % (r[c], x))


def whole(S, rep, players, r, kinds):
    c = c32.rec_class(S)
    f = S.I.class_attr(S.base, c, 'to_paifu')
    at = S.loc_of(f) if isinstance(f, V) else S.where_class(c)
    n = 'rows of a record with %d players from round %d (%s)' % (players, r, ', '.join(kinds))
    plan = []

    def build_(I, s):
        els = c32.constant_head(I, s, players)
        for k, kind in enumerate(kinds):
            rnd = 'ESWN'[(r + k) // 4] + '-%d-%d' % ((r + k) % 4 + 1, k)
            els.append(c32.constant_init(I, s, (r + k) % players, players, (r + k, k, 0, 0, 4, 88), (250, 310, 190, 240)))
            plan.append((rnd, ['INIT%d' % (i + 1) for i in range(players)] + ['DORA', 'ROUND']))
            p = k % players
            els += [draw(I, s, p, 33 + k), discard(I, s, p, 33 + k), call(I, s, (p + 1) % players, CALLS['pon'].code), reach_event(I, s, p, 1, players, 'w%d' % k)]
            plan.append((rnd, ['DRAW', 'DISCARD', 'PENG', 'CALLRICHI']))
            if k < len(kinds) - 1:
                els += c32.ends(I, s, kind, players, 'w%d' % k)
                plan.append((rnd, ['WIN'] * len(c32.ends(I, s, kind, players, 'z')) if 'win' in kind else ['EVEN']))
            else:
                order = [(i + 1) % players for i in range(players)]
                els.append(c32.constant_agari(I, s, 1, 0, 7700, c32.owari_of(order, players)))
                plan.append((rnd, ['WIN']))
        return els
    o, _ = c32.make(S, build_, lambda I, s, rec: I.call_method(s, rec, 'to_paifu', [], {}, None))
    if c32.dead(S, rep, o, n, at):
        return
    st = o.st
    rows = rows_of(S, st, o.value)
    if rows is None:
        return rep.undecided(n, at, 'rows unknown')
    want = [(g, k) for g, ks in plan for k in ks]
    final = {(i + 1) % players: c32.FINALS[i] for i in range(players)}
    rep.decide(len(rows) == len(want) + players, n + ': number of rows', at, '%d instead of %d' % (len(rows), len(want) + players))
    for i, (row, (g, k)) in enumerate(zip(rows, want)):
        for col, w in (('event_type', k), ('game_str', g)):
            if col not in row:
                rep.bad('%s: row %d, %s' % (n, i, col), at, 'there is no such cell')
            else:
                rep.decide(cell(st, row[col], w), '%s: row %d, %s' % (n, i, col), at, 'it is %r instead of %r' % (row[col], w))
        for col, v in sorted(row.items(), key=repr):
            rep.decide(is_text(v), '%s: row %d, %s is text' % (n, i, col), at, 'it is %r' % (v,))
    for i, row in enumerate(rows[len(want):len(want) + players]):
        for col, w in (('event_type', 'FIN%d' % (i + 1)), ('player', str(i)), ('score', Number(final[i] * 100))):
            if col not in row:
                rep.bad('%s: final row %d, %s' % (n, i, col), at, 'there is no such cell')
            else:
                rep.decide(cell(st, row[col], w), '%s: final row %d, %s' % (n, i, col), at, 'it is %r instead of %r' % (row[col], w))
