"""C11: each universal command states the right fact from the right record field."""
from ..world import *

RULE = ('Field provenance by value numbering: abstract records - every number of an event a symbolic leaf, seats, call codes and game-type codes '
        'enumerated - are pushed through the whole translation (to_commands, the event handlers, the builder, the interpreter). For each event '
        'kind a table says which property gets which update with which value, as an expression over the leaves of that same event; the value '
        'number, seat, event type and position of every command is compared with it. A command the table demands and that is not produced, or '
        'carries another value number, is a violation. Extra properties are not judged.')

TC = ('mahjong.record.universe.tenhou', 'to_commands')
YAKU = ("門前清自摸和 立直 一発 槍槓 嶺上開花 海底摸月 河底撈魚 平和 断幺九 一盃口 自風_東 自風_南 自風_西 自風_北 場風_東 場風_南 場風_西 場風_北 役牌_白 役牌_發 "
        "役牌_中 両立直 七対子 混全帯幺九 一気通貫 三色同順 三色同刻 三槓子 対々和 三暗刻 小三元 混老頭 二盃口 純全帯幺九 混一色 清一色 人和 天和 地和 大三元 "
        "四暗刻 四暗刻単騎 字一色 緑一色 清老頭 九蓮宝燈 純正九蓮宝燈 国士無双 国士無双１３面 大四喜 小四喜 四槓子 ドラ 裏ドラ 赤ドラ").replace('_', '_').split()
YAKU = [y.replace('_', ' ') for y in YAKU]
DRAWN = {"kaze4": "四風連打", "yao9": "九種九牌", "ron3": "三家和了", "reach4": "四家立直", "kan4": "四槓散了", "nm": "流局滿貫"}
DAN = '新人 9級 8級 7級 6級 5級 4級 3級 2級 1級 初段 二段 三段 四段 五段 六段 七段 八段 九段 十段 天鳳位'.split()


class Want:
    """a demanded command"""

    def __init__(self, prop, sub, update, value, event):
        self.prop, self.sub, self.update, self.value, self.event = prop, sub, update, value, event


ANY = object()      # value of a reset: not stated


def tiles_of_game(players, aka):
    out = []
    for s in 'mps':
        for n in range(1, 10):
            if players == 3 and s == 'm' and 1 < n < 9:
                continue
            k = 3 if aka and n == 5 else 4
            out += ['%d%s' % (n, s)] * k
        if aka and not (players == 3 and s == 'm'):
            out.append('0' + s)
    for n in range(1, 8):
        out += ['%dz' % n] * 4
    return out


def want_go(code):
    b = [code >> i & 1 for i in range(11)]
    players = 3 if b[4] else 4
    level = b[5] << 1 | b[7]
    R = lambda p, v: Want(p, 'all', 'REPLACE', v, 'record_init')
    return [R('play_level', ('若銀琥孔' if b[9] else '般上特鳳')[level]), R('show_discard_shadow', bool(b[8])), R('play_wind_count', 2 if b[3] else 1),
            R('allow_tanyao_open', not b[2]), R('speed_up', bool(b[6])), R('player_count', players), R('using_tiles', Bag(tiles_of_game(players, not b[1])))]


def want_un(seats, tag='', full=True):
    out = []
    for p in seats:
        out.append(Want('disconnected', p, 'REPLACE', False, 'connect_change'))
        out.append(Want('name', p, 'ASSERT_EQUAL_OR_SET', Term('ext', ('urllib.parse.unquote', sl('name%d%s' % (p, tag))), 'str'), 'record_init'))
        if full:
            out.append(Want('level', p, 'REPLACE', Term('index', (Const(tuple(DAN)), leaf('dan%d%s' % (p, tag), 0, 20)), 'str'), 'record_init'))
            out.append(Want('extra_level', p, 'REPLACE', Term('float', (dec('rate%d%s' % (p, tag)),), 'float'), 'record_init'))
    return out


def dealer(players, oya):
    return [Want('is_dealer', p, 'REPLACE', p == oya, 'game_init') for p in range(players)]


def want_init(oya, players, tag='', hands=13):
    G = lambda p, v, e='game_init': Want(p, 'all', 'REPLACE', v, e)
    rnd = leaf('round' + tag, 0, 11)
    out = [G('wind', Term('floordiv', (rnd, Const(4)), 'int')), G('round', Term('mod', (rnd, Const(4)), 'int')), G('sub_round', leaf('honba' + tag, 0, 20)),
           G('richii_remain_scores', lin((1000, leaf('sticks' + tag, 0, 10)))), G('dora_indicators', [tile(leaf('dora' + tag, 0, 135))], 'new_dora')]
    out += dealer(players, oya)
    for p in range(players):
        for k in ('discard_tiles', 'fixed_meld', 'meld_public_tiles', 'bonus_tiles', 'round', 'discard_from_hand'):
            out.append(Want(k, p, 'RESET_DEFAULT', ANY, 'game_init'))
        out.append(Want('in_richii', p, 'REPLACE', False, 'game_init'))
        out.append(Want('hand', p, 'REPLACE', Bag([tile(leaf('hai%d_%d%s' % (p, i, tag), 0, 135)) for i in range(hands)]), 'game_init'))
        out.append(Want('score', p, 'ASSERT_EQUAL_OR_SET', lin((100, leaf('ten%d%s' % (p, tag), 0, 1500))), 'game_init'))
    return out


def want_draw(p, t):
    return [Want('hand', p, 'ADD', [tt(t)], 'draw')]


def want_discard(p, t, last):
    """last: tile number drawn just before by that player, None after a call"""
    t = t if isinstance(t, V) else Const(t)
    if last is None:
        tedashi = Const(True)
    else:
        d = n_sub(t, last if isinstance(last, V) else Const(last))
        tedashi = Const(d.v != 0) if type(d) is Const else Term('not', (Term('eq0', (d,), 'bool'),), 'bool')
    return [Want('round', p, 'ADD', 1, 'discard'), Want('discard_from_hand', p, 'ADD', [tedashi], 'discard'),
            Want('hand', p, 'REMOVE', [tt(t)], 'discard'), Want('discard_tiles', p, 'ADD', [tt(t)], 'discard')]


def want_call(p, c):
    own = [tt(x) for x in sorted(c.own)]
    all_ = [tt(x) for x in sorted(c.own | c.claimed)]
    out = [Want('meld_public_tiles', p, 'ADD', Bag(own), 'open_hand')]
    if c.kind == 'north':
        out.append(Want('bonus_tiles', p, 'ADD', Bag(own), 'open_hand'))
    else:
        out.append(Want('fixed_meld', p, 'ADD', Bag([Bag(all_)]), 'open_hand'))
    out.append(Want('hand', p, 'REMOVE', Bag(own), 'open_hand'))
    return out


def want_reach(p, step):
    if step == 1:
        return [Want('in_richii', p, 'REPLACE', True, 'richii')]
    return [Want('score', p, 'REMOVE', 1000, 'richii')]


def want_scores(players, tag):
    out = []
    for p in range(players):
        out.append(Want('score', p, 'ASSERT_EQUAL_OR_SET', lin((100, leaf('sc%d%s' % (p, tag), -500, 1500))), 'game_finish'))
        out.append(Want('score', p, 'ADD', lin((100, leaf('delta%d%s' % (p, tag), -1000, 1000))), 'game_finish'))
    return out


def want_result(players, who, frm, names):
    out = []
    for p in range(players):
        R = lambda k, v: Want(k, p, 'REPLACE', v, 'game_finish')
        tsumo = who is not None and who == frm
        lost = who is not None and not tsumo and p == frm
        win = p == who
        out += [R('is_win', win), R('is_self_win', tsumo), R('is_discard_lose_game', lost), R('faans', names if tsumo or lost or win else [])]
    return out


def want_final(finals, points, ranks):
    out = []
    for p in range(len(ranks)):
        R = lambda k, v: Want(k, p, 'REPLACE', v, 'record_finish')
        out += [R('final_score', lin((100, finals[p]))), R('final_point', points[p])]
        if ranks[p] is not None:
            out.append(R('rank', ranks[p]))
    return out


# ------------------------------------------------------------ scenarios

def fraction_points(players, tag):
    return [Term('float', (dec('point%d%s' % (p, tag)),), 'float') for p in range(players)]


def start(I, st, P):
    return [(go(I, st, P), want_go({4: 169, 3: 185}[P]))]


def sc_setup(P, oya):
    def build(I, st):
        ev = [(shuffle(I, st), [Want('seed', 'all', 'REPLACE', sl('shuffle_seed'), 'record_init')])]
        ev += start(I, st, P)
        ev.append((un(I, st, P), want_un(range(P))))
        ev.append((taikyoku(I, st, oya), dealer(P, oya)))
        ev.append((init(I, st, oya, P), want_init(oya, P)))
        ev.append((init(I, st, (oya + 1) % P, P, tag='b', hands=4), want_init((oya + 1) % P, P, 'b', 4)))
        return ev
    return build


def sc_type(code):
    return lambda I, st: [(elem(I, st, 'GO', type=str(code), lobby='0'), want_go(code))]


def sc_reconnect(P, p):
    def build(I, st):
        ev = start(I, st, P) + [(un(I, st, P), want_un(range(P)))]
        ev.append((bye(I, st, p), [Want('disconnected', p, 'REPLACE', True, 'connect_change')]))
        ev.append((un(I, st, P, tag='r', missing=[q for q in range(4) if q != p], full=False), want_un([p], 'r', False)))
        return ev
    return build


def sc_tiles(P, p, concrete):
    q = (p + 1) % P
    r = (p + 2) % P

    def build(I, st):
        t = (lambda n: {'t1': 0, 't2': 0, 'd1': 0, 'd2': 135, 't3': 16, 'd3': 17}[n]) if concrete else (lambda n: leaf(n, 0, 135))
        ev = start(I, st, P) + [(init(I, st, p, P, hands=1), want_init(p, P, '', 1))]
        ev.append((draw(I, st, p, t('t1')), want_draw(p, t('t1'))))
        ev.append((discard(I, st, p, t('t1')), want_discard(p, t('t1'), t('t1'))))
        ev.append((draw(I, st, q, t('t2')), want_draw(q, t('t2'))))
        ev.append((draw(I, st, r, t('t3')), want_draw(r, t('t3'))))
        return ev
    return build


def sc_tedashi(P, p, tile_drawn, tile_out):
    """the tile put out is compared with the one drawn just before by the same player"""
    q = (p + 1) % P

    def build(I, st):
        ev = start(I, st, P)
        ev.append((init_small(I, st, p, P, {p: [tile_out, 3, 60, 61, 62], q: [tile_drawn, 70]}), None))
        ev.append((draw(I, st, p, tile_drawn), want_draw(p, tile_drawn)))
        ev.append((discard(I, st, p, tile_out), want_discard(p, tile_out, tile_drawn)))
        ev.append((discard(I, st, q, tile_drawn), want_discard(q, tile_drawn, None)))   # after a call: nothing drawn
        last = 3 if tile_drawn == tile_out else tile_drawn
        ev.append((discard(I, st, p, last), want_discard(p, last, None)))
        return ev
    return build


def init_small(I, st, oya, P, hands):
    a = {'seed': '0,0,0,1,2,55', 'ten': '250,250,250,%s' % ('250' if P == 4 else '0'), 'oya': str(oya)}
    for p in range(4):
        a['hai%d' % p] = ','.join(str(x) for x in hands.get(p, [100 + p])) if p < P else ''
    return elem(I, st, 'INIT', **a)


def sc_call(P, p, name):
    c = calls()[name]

    def build(I, st):
        ev = start(I, st, P)
        ev.append((init_small(I, st, p, P, {p: sorted(c.own) + [99]}), None))
        if not c.claimed:
            ev.append((draw(I, st, p, 98), want_draw(p, 98)))
        ev.append((call(I, st, p, c.code), want_call(p, c)))
        ev.append((discard(I, st, p, 99), want_discard(p, 99, None)))
        return ev
    return build


def sc_reach(P, p):
    def build(I, st):
        ev = start(I, st, P) + [(init(I, st, p, P, hands=1), None)]
        ev.append((reach(I, st, p, 1), want_reach(p, 1)))
        ev.append((reach(I, st, p, 2, P), want_reach(p, 2)))
        d = leaf('newdora', 0, 135)
        ev.append((dora(I, st, d), [Want('dora_indicators', 'all', 'ADD', [tile(d)], 'new_dora')]))
        return ev
    return build


WIN = {'plain': ([8, 12, 17, 132, 133], 12, [(1, 1), (52, 2)]), 'zero': ([0, 4, 8, 1, 9], 0, [(0, 1), (7, 1), (8, 1), (54, 0)])}


def sc_agari(P, who, frm, kind, final):
    """final: None, 'text' symbolic final scores or a list of constant ones"""
    def build(I, st):
        tag = 'w'
        ev = start(I, st, P) + [(init(I, st, 0, P, hands=1), None)]
        nothing = Want('nobody_win', 'all', 'REPLACE', False, 'game_finish')
        if who == frm and kind == 'plain':
            e = agari(I, st, who, frm, P, tag, last=final == 'text', yakuman=False)
            hand = Bag([tile(leaf('win%d%s' % (i, tag), 0, 135)) for i in range(5)] + [tile(leaf('machi' + tag, 0, 135))])
            names = [Term('index', (Const(tuple(YAKU)), leaf('yaku%d%s' % (i, tag), 0, 36)), 'str') for i in range(2)]
        else:
            tiles, machi, yaku = WIN['plain' if kind == 'yakuman' else kind]
            a = {'ba': '0,0', 'hai': ','.join(map(str, tiles)), 'machi': str(machi), 'ten': '30,1000,0'}
            if kind == 'yakuman':
                a['yakuman'] = '39,42'
                names = [YAKU[39], YAKU[42]]
            else:
                a['yaku'] = ','.join('%d,%d' % x for x in yaku)
                names = [YAKU[y] for y, _ in yaku]
            a.update(doraHai='5', who=str(who), fromWho=str(frm), sc=scores(P, tag))
            if final == 'text':
                a['owari'] = owari(st, P, tag)
            elif final:
                a['owari'] = ','.join('%d,%s' % (x, 10 + i) for i, x in enumerate(final)) + (',0,0' if P == 3 else '')
            e = elem(I, st, 'AGARI', **a)
            texts = [tile_text(x) for x in tiles]
            if who != frm:
                texts.remove(tile_text(machi))
            hand = Bag(texts)
        w = [Want('hand', who, 'ASSERT_EQUAL_OR_SET', hand, 'game_finish'), nothing] + want_scores(P, tag) + want_result(P, who, frm, names)
        w += finish(P, tag, final)
        ev.append((e, w))
        return ev
    return build


def finish(P, tag, final):
    if final == 'text':
        return want_final([leaf('final%d%s' % (p, tag), -500, 1500) for p in range(P)], fraction_points(P, tag), [None] * P)
    if final:
        order = sorted(range(P), key=lambda p: (-final[p], p))
        return want_final([Const(x) for x in final], [Const(10 + i) for i in range(P)], [order.index(p) + 1 for p in range(P)])
    return []


def sc_ryuu(P, kind, score, final):
    def build(I, st):
        tag = 'r'
        ev = start(I, st, P) + [(init(I, st, 0, P, hands=1), None)]
        e = ryuukyoku(I, st, P, tag, kind, last=final == 'text', score=score)
        w = [Want('nobody_win', 'all', 'REPLACE', True, 'game_finish'), Want('extra_reason', 'all', 'REPLACE', DRAWN[kind] if kind else 'EXHAUSTED', 'game_finish')]
        w += (want_scores(P, tag) if score else []) + want_result(P, None, None, []) + finish(P, tag, final)
        ev.append((e, w))
        return ev
    return build


def scenarios():
    for P in (4, 3):
        for p in range(P):
            yield 'setup of %d players, dealer %d' % (P, p), sc_setup(P, p)
            yield 'reconnect of player %d of %d' % (p, P), sc_reconnect(P, p)
            yield 'tiles of player %d of %d' % (p, P), sc_tiles(P, p, False)
            yield 'tile numbers of player %d of %d' % (p, P), sc_tiles(P, p, True)
            for a, b in ((0, 0), (0, 1), (1, 0), (16, 17), (135, 135), (132, 8)):
                yield 'discard %d after draw %d, player %d of %d' % (b, a, p, P), sc_tedashi(P, p, a, b)
            yield 'riichi of player %d of %d' % (p, P), sc_reach(P, p)
            for name in calls():
                if P == 3 and name == 'chi' or P == 4 and name == 'north':
                    continue
                yield '%s by player %d of %d' % (name, p, P), sc_call(P, p, name)
            for q in range(P):
                for kind in ('plain', 'zero', 'yakuman'):
                    yield '%s win of %d from %d, %d players' % (kind, p, q, P), sc_agari(P, p, q, kind, 'text' if kind == 'plain' else None)
        for f in ([300, 250, 200, 250], [100, 400, 100, 400], [0, 0, 500, 500], [-50, 600, 200, 250], [250, 250, 250, 250]):
            f = f[:P] if P == 3 else f
            yield 'final order %s' % f, sc_agari(P, 1, 2, 'zero', f)
        for kind in [None] + sorted(DRAWN):
            yield 'drawn %s, %d players' % (kind, P), sc_ryuu(P, kind, True, 'text' if kind in (None, 'nm') else None)
        yield 'drawn without scores, %d players' % P, sc_ryuu(P, None, False, None)
    for base in (1, 169, 185, 657):
        for i in [None] + list(range(1, 11)):
            yield 'game type %d bit %s' % (base, i), sc_type(base if i is None else base ^ 1 << i)


SCOPES = None


def scope_of(prop_cls):
    return {'RecordView': 'record', 'GameView': 'game', 'PlayerView': 'player'}.get(prop_cls)


GAME = {'wind', 'round', 'sub_round', 'dora_indicators', 'richii_remain_scores', 'nobody_win', 'extra_reason'}


def run(rep):
    S = Session(rep, steps=8000000)
    S.g(*TC)
    S.g(EV, 'TenhouEvent')
    rep.parallel(list(scenarios()), lambda x: one(rep, S, *x))


def one(rep, S, name, build):
    I = S.I
    st = S.state()
    evs = build(I, st)
    tc = S.g(*TC)
    where = S.loc_of(tc)
    mk = Makers(S)
    o = S.run(lambda I, s: I.call(s, tc, [record(S, s, [e for e, _ in evs])], {}, None), st, intercepts=STUBS, listen=mk)
    rep.count('scenarios')
    rep.count('events', len(evs))
    if o.dead:
        rep.bad('%s: converted' % name, where, 'raises %s' % [n for n, _ in S.exc(o)])
        return
    cmds = commands(S, o.st, o.value)
    if cmds is None or any(c.many for c in cmds):
        rep.undecided('%s: commands' % name, where, 'the list of commands is not definite')
        return
    for i, (e, want) in enumerate(evs):
        if want is None:
            continue
        what = '%s: event %d (%s)' % (name, i, tag_of(S, st, e))
        judge(rep, S, o.st, what, where, [c for c in cmds if c.timestamp == Const(i)], want, cmds, mk)


def tag_of(S, st, e):
    t = st.get(e.oid).attrs['tag']
    return t.v if type(t) is Const else 'tile'


def judge(rep, S, st, what, where, cmds, want, everything, mk):
    keys = {}
    for w in want:
        keys.setdefault((w.prop, w.sub, w.sub == 'all' and w.prop in GAME), []).append(w)
    vague = [c for c in cmds if c.lits or c.name('property') is None or c.name('update_method') is None or type(c.sub_scope_id) is not Const]
    missing_time = [c for c in everything if type(c.timestamp) is not Const]
    subs = {}
    for prop, sub, _ in keys:
        subs.setdefault(prop, set()).add(sub)
    if not vague:
        for c in cmds:
            p, s = c.name('property'), c.sub_scope_id.v
            if p in subs and s not in subs[p]:
                rep.bad('%s: %s addressed' % (what, p), mk.where(c), 'command for %s, the event concerns %s' % (s, sorted(subs[p], key=str)))
    for (prop, sub, _), ws in keys.items():
        rep.count('commands demanded', len(ws))
        got = [c for c in cmds if c.name('property') == prop and type(c.sub_scope_id) is Const and c.sub_scope_id.v == sub
               and isinstance(c.sub_scope_id.v, str) == isinstance(sub, str)]
        label = '%s: %s of %s' % (what, prop, sub)
        if vague or missing_time:
            rep.undecided(label, where, 'commands not definite')
            continue
        if got:
            where = mk.where(got[0]) or where
        if len(got) != len(ws):
            rep.bad(label, where, 'record demands %s, translation gives %s' % ([(w.update, w.value if w.value is not ANY else '') for w in ws],
                                                                              [(c.name('update_method'), show(S, st, c.value)) for c in got]))
            continue
        for w, c in zip(ws, got):
            where = mk.where(c) or where
            if c.name('update_method') != w.update:
                rep.bad(label + ' update', where, '%s instead of %s' % (c.name('update_method'), w.update))
                continue
            ev = c.name('event')
            rep.decide(None if ev is None else ev == w.event, label + ' event type', where, '%s instead of %s' % (ev, w.event))
            if w.value is ANY:
                continue
            r = same(S, st, c.value, w.value)
            rep.decide(r, label + ' ' + w.update, where, 'value %s, the record says %s' % (show(S, st, c.value), w.value))


def show(S, st, v):
    if type(v) is Ref:
        es = S.I.entries(st, v)
        return [show(S, st, st.simp(e.v)) for e in es] if es is not None else '?'
    return v
