"""C32: record headers, results and rounds are read from their own fields."""
from ..track import *

RULE = ('Abstract interpretation of building a record from its elements: every header field (names, ranks, ratings, sexes, seeds, dealer, final scores '
        'and points, win points) is a distinct symbolic value, so the field each reported value comes from is visible in it; the grouping of '
        'events into games is compared, event by event, with the deals of the record; the printed results are compared for constant names and '
        'scores in every order of the players.')

ASSUMPTIONS = ['records are built from the elements the log format has; a deal, a few turns and one or more results per game']

READER = 'mahjong.record.reader'
KINDS = ['win by draw', 'win by discard', 'two wins', 'three wins', 'draw', 'draw yao9', 'draw without scores']


def run(rep):
    S = Session(rep)
    jobs = [(headers, (players, reconnect)) for players in (4, 3) for reconnect in (False, True)]
    jobs += [(games, (players, kinds)) for players in (4, 3) for kinds in [(a, b) for a in KINDS for b in KINDS[:1] + KINDS[2:3] + KINDS[4:5]] + [(a,) for a in KINDS]
             + [tuple(KINDS)]]
    jobs += [(rounds, (players, south, r)) for players in (4, 3) for south in (False, True) for r in range(12 if south else 8)]
    jobs += [(ranking, (players, p)) for players in (4, 3) for p in perms(players)]
    jobs += [(results, (players, k, a, b)) for players in (4, 3) for k in KINDS for a in range(players) for b in range(players)]
    jobs += [(player, (i, level)) for i in range(4) for level in range(21)]
    rep.parallel(jobs, lambda j: j[0](S, rep, *j[1]), limit=60)


def perms(n):
    from itertools import permutations
    return list(permutations(range(n)))


def method(S, c, name):
    v = S.I.class_attr(S.base, c, name)
    return S.loc_of(v) if isinstance(v, V) else S.where_class(c)


def rec_class(S):
    return S.g(READER, 'TenhouRecord')


def make(S, build, then, players=4):
    """a record of the elements build gives, and what then reads from it"""
    box = {}

    def go_(I, s):
        els = build(I, s)
        r = I.call(s, rec_class(S), [I.new_list(s, els)], {}, None)
        box['rec'] = r
        return then(I, s, r)
    return S.run(go_, S.state(), intercepts=STUBS), box


def dead(S, rep, o, n, at):
    if not o.dead:
        return False
    names = sorted({str(x) for x, _ in S.exc(o)})
    rep.decide(False if names else None, n, at, 'always raises %s' % ', '.join(names) if names else 'no path through')
    return True


def expect(S, rep, n, at, st, got, want):
    """want: value, python constant, or list"""
    got = st.simp(got)
    if type(want) is Ref:
        return rep.decide(True if got == want else (False if type(got) in (Ref, Const) else None), n, at, 'another object')
    r = same(S, st, got, want)
    rep.decide(r, n, at, '' if r else 'it is %r instead of %r' % (st.simp(got) if isinstance(got, V) else got, want))


def head(I, s, players, un_el=None):
    return [shuffle(I, s), go(I, s, players), un_el or un(I, s, players), taikyoku(I, s, 1)]


def ends(I, s, kind, players, tag, last=False):
    if kind == 'win by draw':
        return [agari(I, s, 1, 1, players, tag, last)]
    if kind == 'win by discard':
        return [agari(I, s, 2, 0, players, tag, last)]
    if kind == 'two wins':
        return [agari(I, s, 0, 2, players, tag + 'i'), agari(I, s, 1, 2, players, tag + 'ii', last)]
    if kind == 'three wins':
        return [agari(I, s, i, 2, players, tag + 'i' * (i + 1), last and i == 1) for i in (0, 1)] if players == 3 else \
            [agari(I, s, i, 2, players, tag + 'i' * (i + 1), last and i == 3) for i in (0, 1, 3)]
    if kind == 'draw':
        return [ryuukyoku(I, s, players, tag, None, last)]
    if kind == 'draw yao9':
        return [ryuukyoku(I, s, players, tag, 'yao9', last)]
    return [ryuukyoku(I, s, players, tag, None, last, score=False)]


def headers(S, rep, players, reconnect):
    c = rec_class(S)
    at = method(S, c, '__init__')
    n = 'header of a record with %d players%s' % (players, ', one coming back with another name' if reconnect else '')
    T = 'h'

    def build(I, s):
        els = head(I, s, players) + [init(I, s, 2, players, 'a')]
        if reconnect:
            els += [bye(I, s, 1), un(I, s, players, tag='back', missing=[i for i in range(players) if i != 1], full=False)]
        return els + [draw(I, s, 0, leaf('in', 0, 135)), discard(I, s, 0, leaf('in', 0, 135))] + ends(I, s, 'win by discard', players, T, True)

    def read(I, s, r):
        ps = I.get_attr(s, r, 'players', None)
        ps = seq(S, s, ps)
        if ps is None:
            return NONE
        gt = I.get_attr(s, r, 'game_type', None)
        return Tup((Tup(tuple(Tup(tuple(I.get_attr(s, p, f, None) for f in ('index', 'name', 'level', 'rate', 'sex'))) for p in ps)),
                    I.get_attr(s, r, 'end_score', None), I.get_attr(s, r, 'end_point', None), I.call_method(s, gt, 'player_count', [], {}, None)))
    o, box = make(S, build, read)
    if dead(S, rep, o, n, at):
        return
    if type(o.value) is not Tup:
        rep.undecided(n, at, 'players unknown')
        return
    ps, sc, pt, cnt = o.value.items
    rep.decide(len(ps.items) == players, n + ': number of players', at, 'there are %d' % len(ps.items))
    expect(S, rep, n + ': game type', at, o.st, cnt, players)
    for i, p in enumerate(ps.items[:players]):
        idx, name, level, rate, sex = p.items
        h = '%s: player %d ' % (n, i)
        expect(S, rep, h + 'seat', at, o.st, idx, i)
        origin(S, rep, h + 'name', at, o.st, name, sleaf('name%d' % i, 'text'))
        origin(S, rep, h + 'rank', at, o.st, level, leaf('dan%d' % i, 0, 20))
        origin(S, rep, h + 'rating', at, o.st, rate, sleaf('rate%d' % i, 'dec'))
        expect(S, rep, h + 'sex', at, o.st, sex, 'MFMC'[i])
    for what, v, leaf_of in (('final score', sc, lambda i: leaf('final%d%s' % (i, T), -500, 1500)), ('final points', pt, lambda i: sleaf('point%d%s' % (i, T), 'dec'))):
        vs = seq(S, o.st, v)
        if vs is None:
            rep.undecided('%s: %s' % (n, what), at, 'not a definite list')
            continue
        rep.decide(len(vs) >= players, '%s: %s of every player' % (n, what), at, 'there are %d' % len(vs))
        for i, x in enumerate(vs[:players]):
            origin(S, rep, '%s: %s of player %d' % (n, what, i), at, o.st, x, leaf_of(i))


def origin(S, rep, n, at, st, got, field):
    """the value is the field itself (as a number or decoded text)"""
    got = st.simp(got) if isinstance(got, V) else got
    ls = leaves_of(got)
    if type(got) is Const:
        return rep.decide(False, n, at, 'it is always %r' % (got.v,))
    if ls and ls != leaves_of(field):
        return rep.decide(False, n, at, 'it comes from %s instead of %s' % (', '.join(sorted(str(l.args[0]) for l in ls)), field.args[0]))
    if getattr(field, 'ty', '') == 'int':
        return rep.decide(same_value(got, field, tuple(st.guards)), n, at, 'it is %r' % (got,))
    ok = type(got) is Term and (got.op == 'float' or got == field or (got.op == 'ext' and got.args[0] == 'urllib.parse.unquote')) and ls
    rep.decide(True if ok else None, n, at, 'it is %r' % (got,))


def games(S, rep, players, kinds):
    c = rec_class(S)
    at = method(S, c, '__init__')
    n = 'record of %d games (%s), %d players' % (len(kinds), ', '.join(kinds), players)
    parts = []

    def build(I, s):
        els = head(I, s, players)
        parts.append(len(els))
        for k, kind in enumerate(kinds):
            e = ends(I, s, kind, players, 'g%d' % k, k == len(kinds) - 1)
            g = [init(I, s, k % players, players, 'g%d' % k), draw(I, s, k % players, leaf('in%d' % k, 0, 135)), discard(I, s, k % players, leaf('out%d' % k, 0, 135))]
            if k % 2:
                g += [un(I, s, players, tag='back', missing=[i for i in range(players) if i != 1], full=False)]
            if kind == 'draw':
                g += [dora(I, s, leaf('more%d' % k, 0, 135))]
            if k % 3 == 2:
                e = e + [bye(I, s, 0)] if k < len(kinds) - 1 else e
            parts.append((len(els), len(g), len([x for x in e]), k % players))
            els += g + e
        parts.append(len(els))
        return els

    def read(I, s, r):
        gl = seq(S, s, I.get_attr(s, r, 'game_list', None))
        ev = I.get_attr(s, r, 'events', None)
        es = seq(S, s, ev)
        if gl is None or es is None:
            return NONE
        ctx = []
        for e in es:
            q = s.copy()
            try:
                ctx.append(I.get_attr(s, e, 'context_', None))
            except PathDead:
                s.__dict__.update(q.__dict__) if hasattr(q, '__dict__') else None
                return NONE
        out = []
        for g in gl:
            out.append(Tup(tuple(I.get_attr(s, g, f, None) for f in ('events', 'end_events', 'players', 'game_type', 'east_index', 'playing')) +
                           tuple(I.call_method(s, g, f, [], {}, None) for f in ('sub_game_index', 'richii_counts', 'initial_dora'))))
        return Tup((Tup(tuple(gl)), Tup(tuple(es)), Tup(tuple(ctx)), Tup(tuple(out)), I.get_attr(s, r, 'players', None), I.get_attr(s, r, 'game_type', None)))
    o, box = make(S, build, read)
    if dead(S, rep, o, n, at):
        return
    if type(o.value) is not Tup:
        rep.undecided(n, at, 'games unknown')
        return
    st = o.st
    gl, es, ctx, out, ps, gt = o.value.items
    first, *shape, total = parts
    gat = method(S, S.g(READER, 'TenhouGame'), '__init__')
    rep.count('records built')
    rep.decide(len(es.items) == total, n + ': every event belongs to the record', at, '%d of %d' % (len(es.items), total))
    if not rep.decide(len(gl.items) == len(kinds), n + ': one game per deal', at, 'there are %d games' % len(gl.items)) and len(gl.items) != len(kinds):
        return
    for i in range(min(first, len(ctx.items))):
        expect(S, rep, '%s: event %d belongs to the record' % (n, i), at, st, ctx.items[i], box['rec'])
    for k, (g, (lo, head_n, end_n, oya)) in enumerate(zip(out.items, shape)):
        events, end_events, gps, ggt, east, playing, honba, sticks, ind = g.items
        h = '%s: game %d' % (n, k)
        hi = shape[k + 1][0] if k + 1 < len(shape) else total
        mine = list(es.items[lo:hi])
        refs(S, rep, h + ' events', gat, st, events, mine)
        refs(S, rep, h + ' events after the deal', gat, st, playing, mine[1:])
        wins = mine[head_n:head_n + end_n - (1 if k % 3 == 2 and k < len(kinds) - 1 else 0)]
        refs(S, rep, h + ' results', gat, st, end_events, wins)
        for i in range(lo, hi):
            expect(S, rep, '%s event %d belongs to it' % (h, i - lo), gat, st, ctx.items[i], gl.items[k])
        same_ref(S, rep, h + ' players', gat, st, gps, ps)
        same_ref(S, rep, h + ' game type', gat, st, ggt, gt)
        expect(S, rep, h + ' dealer', gat, st, east, oya)
        for what, v, f in (('counters', honba, ('honba', 0, 20)), ('riichi sticks', sticks, ('sticks', 0, 10)), ('dora indicator', ind, ('dora', 0, 135))):
            expect(S, rep, h + ' ' + what, gat, st, v, leaf(f[0] + 'g%d' % k, f[1], f[2]))


def refs(S, rep, n, at, st, got, want):
    xs = seq(S, st, got)
    if xs is None:
        return rep.undecided(n, at, 'not a definite list')
    rep.decide(xs == want, n, at, '%d events instead of %d' % (len(xs), len(want)) if len(xs) != len(want) else 'other events')


def same_ref(S, rep, n, at, st, got, want):
    got, want = st.simp(got), st.simp(want)
    if got == want:
        return rep.decide(True, n, at)
    a, b = seq(S, st, got), seq(S, st, want)
    if a is not None and b is not None:
        return rep.decide(a == b, n, at, 'others')
    rep.decide(None, n, at, 'another object')


def constant_init(I, s, oya, players, seeds, ten=(250, 250, 250, 250)):
    a = {'seed': ','.join(map(str, seeds)), 'ten': ','.join(map(str, ten[:players] + (0,) * (4 - players))), 'oya': str(oya)}
    for p in range(4):
        a['hai%d' % p] = ','.join(str(x) for x in hand(p)) if p < players else ''
    return elem(I, s, 'INIT', **a)


def hand(p):
    return [(13 * p + i * 7 + 32) % 104 + 32 for i in (5, 1, 9, 0, 12, 3, 2, 8, 4, 7, 11, 6, 10)]


NAMES = ['Ann', 'Bob', 'Cyd', 'Dee']


def constant_un(I, s, players):
    a = {'n%d' % i: NAMES[i] if i < players else '' for i in range(4)}
    a.update(dan='10,3,20,0', rate='1500.50,1601.25,2222.75,1410.10', sx='M,F,M,F')
    return elem(I, s, 'UN', **a)


def constant_head(I, s, players, south=True):
    t = (1 | 8 * south | 16 * (players == 3) | 32 | 128)
    return [elem(I, s, 'GO', type=str(t), lobby='0'), constant_un(I, s, players), taikyoku(I, s, 0)]


def constant_agari(I, s, who, frm, points, owari=None):
    a = dict(ba='0,0', hai='40,41,42,60,64', machi='40', ten='30,%d,0' % points, yaku='1,1', doraHai='52', who=who, fromWho=frm, sc='250,10,250,-10,250,0,250,0')
    if owari:
        a['owari'] = owari
    return elem(I, s, 'AGARI', **a)


FINALS = [411, 302, 198, 89]
POINTS = ['51.1', '-20.2', '10.2', '-41.1']


def owari_of(order, players):
    """text of the final results when seat order[0] is first, order[1] second..."""
    out = ['0', '0'] * 4
    for rank, seat in enumerate(order):
        out[2 * seat], out[2 * seat + 1] = str(FINALS[rank]), POINTS[rank]
    return ','.join(out)


def text_of(S, st, I, v):
    return I.call(st, Bi('str'), [v], {}, None)


def rounds(S, rep, players, south, r):
    g = S.g(READER, 'TenhouGame')
    at = method(S, g, 'game_index')
    n = 'round number %d of a%s game of %d players' % (r, ' two-wind' if south else 'n east-only', players)

    def build(I, s):
        return constant_head(I, s, players, south) + [constant_init(I, s, 0, players, (r, 2, 1, 0, 3, 77)), constant_agari(I, s, 1, 0, 7700, owari_of(range(players), players))]

    def read(I, s, rec):
        g = seq(S, s, I.get_attr(s, rec, 'game_list', None))[0]
        v = I.call_method(s, g, 'game_index', [], {}, None)
        return Tup((v, text_of(S, s, I, g)))
    o, _ = make(S, build, read)
    if dead(S, rep, o, n, at):
        return
    v, t = o.value.items
    vs = seq(S, o.st, v)
    if vs is None or not all(type(x) is Const for x in vs):
        return rep.undecided(n, at, 'round unknown')
    rep.decide([x.v for x in vs] == [r // 4, r % 4], n, at, 'wind and number %s' % [x.v for x in vs])
    t = o.st.simp(t)
    if type(t) is not Const:
        return rep.undecided(n + ' as text', at, 'text unknown %r' % (t,))
    want = ('東南西北'[r // 4], str(r % 4 + 1), '2')
    import re
    m = re.match(r'\s*(\D+)(\d+)\D+(\d+)', t.v)
    rep.decide(bool(m) and m.groups() == want, n + ' as text', method(S, g, '__str__'), 'printed as %r' % t.v)


def ranking(S, rep, players, order):
    c = rec_class(S)
    at = method(S, c, '__str__')
    n = 'placements %s' % ', '.join('seat %d' % i for i in order)

    def build(I, s):
        return constant_head(I, s, players) + [constant_init(I, s, 0, players, (0, 0, 0, 0, 3, 77)), constant_agari(I, s, 1, 0, 7700, owari_of(order, players))]
    o, _ = make(S, build, lambda I, s, r: text_of(S, s, I, r))
    if dead(S, rep, o, n, at):
        return
    t = o.value
    if type(t) is not Const:
        return rep.undecided(n, at, 'text unknown %r' % ((o.value,),))
    import re
    found = re.findall(r'(%s)|(-?\d+\.\d)' % '|'.join(NAMES), t.v)
    flat_ = [a or b for a, b in found]
    want = []
    for rank, seat in enumerate(order):
        want += [NAMES[seat], POINTS[rank]]
    rep.decide(flat_ == want, n, at, 'printed as %r' % t.v)


def results(S, rep, players, kind, a, b):
    g = S.g(READER, 'TenhouGame')
    at = method(S, g, 'end_stringify')
    n = '%s, seats %d and %d of %d players' % (kind, a, b, players)
    if kind.startswith('draw') and (a or b):
        return
    want = []
    if kind == 'win by draw':
        wins = [(a, a, 7700)]
    elif kind == 'win by discard':
        wins = [(a, b, 12000)]
    elif kind == 'two wins':
        wins = [(a, b, 3900), ((a + 1) % players, b, 8000)]
    elif kind == 'three wins':
        wins = [((b + i) % players, b, 1000 * i + 1000) for i in range(1, players)]
    else:
        wins = []
    if kind in ('win by discard', 'two wins') and (a == b or (a + 1) % players == b):
        return

    def build(I, s):
        els = constant_head(I, s, players) + [constant_init(I, s, 0, players, (0, 0, 0, 0, 3, 77))]
        w = owari_of(range(players), players)
        for i, (x, y, p) in enumerate(wins):
            els.append(constant_agari(I, s, x, y, p, w if i == len(wins) - 1 else None))
        if not wins:
            at_ = {'ba': '0,0', 'owari': w}
            if kind == 'draw yao9':
                at_['type'] = 'yao9'
            els.append(elem(I, s, 'RYUUKYOKU', **at_))
        return els
    o, _ = make(S, build, lambda I, s, r: text_of(S, s, I, seq(S, s, I.get_attr(s, r, 'game_list', None))[0]))
    if dead(S, rep, o, n, at):
        return
    t = o.value
    if type(t) is not Const:
        return rep.undecided(n, at, 'text unknown %r' % ((o.value,),))
    import re
    for x, y, p in wins:
        want += [NAMES[x]] + ([NAMES[y]] if y != x else []) + [str(p)]
    if wins:
        got = re.findall(r'%s|\d{3,}' % '|'.join(NAMES), t.v)
        rep.decide(got == want, n, at, 'printed as %r' % t.v)
    else:
        ok = '流局' in t.v and (('九種九牌' in t.v) == (kind == 'draw yao9')) and not any(x in t.v for x in NAMES)
        rep.decide(ok, n, at, 'printed as %r' % t.v)


DAN = ['新人', '9級', '8級', '7級', '6級', '5級', '4級', '3級', '2級', '1級', '初段', '二段', '三段', '四段', '五段', '六段', '七段', '八段', '九段', '十段', '天鳳位']


def player(S, rep, i, level):
    c = S.g(PLAYER, 'TenhouPlayer')
    at = method(S, c, '__str__')
    n = 'player of seat %d with rank %d as text' % (i, level)

    def go_(I, s):
        p = I.call(s, c, [Const(i), Const('%E3%81%82'), Const(level), Const(1500.25), Const('M')], {}, None)
        return Tup((text_of(S, s, I, p), I.get_attr(s, p, 'name', None), I.call_method(s, p, 'level_str', [], {}, None)))
    o = S.run(go_, S.state())
    if dead(S, rep, o, n, at):
        return
    t, name, lv = [o.st.simp(x) for x in o.value.items]
    if not all(type(x) is Const for x in (t, name, lv)):
        return rep.undecided(n, at, 'text unknown %r' % ((o.value,),))
    rep.decide(name.v == 'あ', n + ': name', at, 'name is %r' % (name.v,))
    rep.decide(lv.v == DAN[level], n + ': rank', at, 'rank is %r instead of %r' % (lv.v, DAN[level]))
    rep.decide(isinstance(t.v, str) and 'あ' in t.v and DAN[level] in t.v and '1500.25' in t.v, n, at, 'printed as %r' % (t.v,))
