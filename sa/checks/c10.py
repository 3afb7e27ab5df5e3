"""C10: tile number 0, seat 0 and other zero-like values are ordinary values."""
import re
from ..universe import *
from ..track import *
from .. import finite, reports, programs
from . import c11, c32

RULE = ('Relational abstract interpretation: the same scene of a record is pushed through every reader (translation to commands, paifu rows, texts, the five '
        'trackers of each player, the report) in variants that differ in one respect only - tile number 0 exchanged with its equal twin number 1; all '
        'seats turned by one, two, three places; one raw number 0, k or 2k. The facts read are matched across the variants; a fact which '
        'is the same in all ordinary variants and another one, or missing, in the variant where the value is zero is a violation. The '
        'executor, the interpreter and the record forms of commands are compared for zero, False, empty text and empty list against ordinary values.')

ASSUMPTIONS = ['the scenes contain each kind of event, each place a tile number may stand in and each raw number of the format once']


# ---- variants of a scene

class Var:
    """how the numbers of a scene are to be written"""

    def __init__(self, players=4, swap=False, turn=0, nums=None):
        self.players, self.swap, self.turn, self.nums = players, swap, turn, nums or {}

    def t(self, x):
        return {0: 1, 1: 0}.get(x, x) if self.swap else x

    def p(self, x):
        return (x + self.turn) % self.players

    def back(self, x):
        return (x - self.turn) % self.players

    def n(self, name, x):
        return self.nums.get(name, x)


def code(v, kind, who, own, claimed, frm):
    """the code of a call made of these tiles (already written in the variant's numbers)"""
    rel = (v.p(frm) - v.p(who)) % 4 if frm is not None else 0
    own, claimed = [v.t(x) for x in own], [v.t(x) for x in claimed]
    a = sorted(own + claimed)
    k = a[0] // 4
    if kind == 'chi':
        return chi_code(rel, k // 9, k % 9, a.index(claimed[0]), [x % 4 for x in a])
    if kind == 'pon':
        return pon_code(rel, k, a.index(claimed[0]), [x for x in range(4) if k * 4 + x not in a][0])
    if kind == 'added':                       # own: the tile added, claimed: the one once claimed
        three = [k * 4 + x for x in range(4) if k * 4 + x != own[0]]
        return added_code(rel, k, three.index(claimed[0]), own[0] % 4)
    if kind == 'north':
        return north_code(own[0])
    return kan_code(rel, claimed[0] if claimed else a[0])


def hands_of(v, given):
    """13 tiles for every player, the given ones among them"""
    used = {x for h in given.values() for x in h} | {0, 1, 2, 3, 50, 51, 54, 55, 58, 59, 62, 63, 66, 67, 70, 71, 74, 75, 120, 121, 122, 123}
    pool = [x for x in range(32 if v.players == 3 else 4, 136) if x not in used]
    step = [pool[i * 29 % len(pool)] for i in range(len(pool))] if len(pool) % 29 else pool
    out = {}
    for p in range(v.players):
        h = list(given.get(p, []))
        k = 13 - len(h)
        h, step = step[:k // 2] + h + step[k // 2:k], step[k:]
        out[p] = h
    return out


NAMES = ['Ann', 'Bob', 'Cyd', 'Dee']
TEN = (250, 310, 190, 240)


def seats(v, xs, zero='0'):
    """the values of the players in the order of the seats"""
    out = [zero] * 4
    for p in range(v.players):
        out[v.p(p)] = str(xs[p])
    return out


def head(v, I, s):
    un_ = {'n%d' % i: x for i, x in enumerate(seats(v, NAMES, ''))}
    un_.update(dan=','.join(seats(v, [v.n('dan', 11), 3, 16, 7])), rate=','.join(seats(v, [v.n('rate', 1500), '1601.25', '2222.75', '1410.10'])),
               sx=','.join(seats(v, 'MFMF', 'C')))
    t = 1 | 8 | 16 * (v.players == 3) | 32 | 128
    return [elem(I, s, 'GO', type=str(t), lobby='0'), elem(I, s, 'UN', **un_), elem(I, s, 'TAIKYOKU', oya=str(v.p(1 % v.players)))]


def deal(v, I, s, oya, hands, ind, rnd=2):
    ten = list(TEN)
    ten[1] = v.n('ten', ten[1])
    a = {'seed': '%s,%s,%s,0,4,%s' % (v.n('round', rnd), v.n('honba', 1), v.n('sticks', 3), v.t(ind)), 'ten': ','.join(seats(v, ten)), 'oya': str(v.p(oya))}
    for i in range(4):
        a['hai%d' % i] = ''
    for p in range(v.players):
        a['hai%d' % v.p(p)] = ','.join(str(v.t(x)) for x in hands[p])
    return elem(I, s, 'INIT', **a)


def pairs(v, xs):
    out = ['0', '0'] * 4
    for p in range(v.players):
        out[2 * v.p(p)], out[2 * v.p(p) + 1] = str(xs[p][0]), str(xs[p][1])
    return ','.join(out)


def build_scene(v, I, s, sc):
    """elements of a scene (given, indicator, events)"""
    name, given, ind, events = sc
    els = head(v, I, s)
    els.append(deal(v, I, s, 2 % v.players, hands_of(v, given), ind))
    for e in events:
        k, p, x = e[:3]
        if k == 'draw':
            els.append(draw(I, s, v.p(p), v.t(x)))
        elif k == 'discard':
            els.append(discard(I, s, v.p(p), v.t(x)))
        elif k == 'dora':
            els.append(dora(I, s, v.t(x)))
        elif k == 'call':
            els.append(call(I, s, v.p(p), code(v, x, p, *e[3:])))
        elif k == 'reach':
            a = {'who': str(v.p(p)), 'step': str(x)}
            if x == 2:
                ten = list(TEN)
                ten[p] -= 10
                ten[1] = v.n('rten', ten[1])
                a['ten'] = ','.join(seats(v, ten))
            els.append(elem(I, s, 'REACH', **a))
        elif k == 'bye':
            els.append(bye(I, s, v.p(p)))
        elif k == 'un':
            els.append(elem(I, s, 'UN', **{'n%d' % v.p(p): NAMES[p]}))
        elif k in ('win', 'drawn'):
            sc_ = [(250, 10), (310, -30), (190, 20), (240, 5)]
            sc_[1] = v.n('sc', sc_[1][0]), v.n('delta', sc_[1][1])
            fin = [(411, '51.1'), (502, '30.2'), (698, '10.2'), (389, '-41.1')]
            fin[1] = v.n('final', 302), v.n('point', '30.2')
            if k == 'drawn':
                a = dict(ba='%s,%s' % (v.n('honba', 1), v.n('sticks', 3)), sc=pairs(v, sc_))
                if x:
                    a['type'] = x
            else:
                own = e[3]
                a = dict(ba='%s,%s' % (v.n('honba', 1), v.n('sticks', 3)), hai=','.join(str(v.t(y)) for y in own), machi=str(v.t(own[-1])),
                         ten='%s,%s,0' % (v.n('fu', 30), v.n('points', 7700)),
                         yaku='%s,1,%s,%s' % (v.n('yaku', 1), 52, v.n('han', 1)), doraHai=str(v.t(e[4])), doraHaiUra=str(v.t(e[5])), who=str(v.p(p)), fromWho=str(v.p(x)),
                         sc=pairs(v, sc_))
            if len(e) > 6 or k == 'drawn':
                a['owari'] = pairs(v, fin)
            els.append(elem(I, s, {'win': 'AGARI', 'drawn': 'RYUUKYOKU'}[k], **a))
    return els


def scenes(players, q=1):
    """scenes in which seat q handles tile number 0 (a 1m)"""
    n, o = (q + 1) % players, (q + 2) % players
    end = [('draw', q, 70), ('win', q, q, [40, 41, 42, 60, 70], 51, 54, 'last')]
    out = [
        ('a tile of the first hand put out', {q: [0, 35]}, 44, [('draw', q, 50), ('discard', q, 0), ('draw', n, 54), ('discard', n, 54)] + end),
        ('a tile drawn and put out', {q: [35, 39]}, 44, [('draw', q, 0), ('discard', q, 0), ('draw', n, 54), ('discard', n, 54), ('draw', q, 58), ('discard', q, 58)] + end),
        ('a tile drawn, another one put out', {q: [35, 39]}, 44, [('draw', q, 0), ('discard', q, 35), ('draw', n, 54), ('discard', n, 54), ('draw', q, 58), ('discard', q, 0)] + end),
        ('two of a kind', {q: [0, 1, 39]}, 44, [('draw', q, 50), ('discard', q, 1), ('draw', n, 54), ('discard', n, 54), ('draw', q, 58), ('discard', q, 0)] + end),
        ('twin drawn', {q: [0, 39]}, 44, [('draw', q, 1), ('discard', q, 0), ('draw', q, 58), ('discard', q, 1)] + end),
        ('richii', {q: [0, 39]}, 44, [('draw', q, 50), ('reach', q, 1), ('discard', q, 0), ('reach', q, 2), ('draw', n, 54), ('discard', n, 54), ('draw', q, 1), ('discard', q, 1)] + end),
        ('a triplet claiming the tile', {q: [2, 3, 39], n: [0]}, 44, [('draw', n, 54), ('discard', n, 0), ('call', q, 'pon', [2, 3], [0], n), ('discard', q, 39)] + end),
        ('a triplet with the tile', {q: [0, 3, 39], n: [2]}, 44, [('draw', n, 54), ('discard', n, 2), ('call', q, 'pon', [0, 3], [2], n), ('discard', q, 39)] + end),
        ('an added quad', {q: [2, 3, 39], n: [1]}, 44, [('draw', n, 54), ('discard', n, 1), ('call', q, 'pon', [2, 3], [1], n), ('discard', q, 39), ('draw', q, 0), ('call', q, 'added', [0], [1], n),
                                                     ('draw', q, 58), ('dora', None, 71), ('discard', q, 58)] + end),
        ('an open quad', {q: [1, 2, 3], n: [0]}, 44, [('draw', n, 54), ('discard', n, 0), ('call', q, 'open kan', [1, 2, 3], [0], n), ('draw', q, 58), ('dora', None, 71), ('discard', q, 58)] + end),
        ('a closed quad', {q: [0, 1, 2]}, 44, [('draw', q, 3), ('call', q, 'closed kan', [0, 1, 2, 3], [], None), ('draw', q, 58), ('dora', None, 71), ('discard', q, 58)] + end),
        ('indicators', {q: [35]}, 0, [('draw', q, 50), ('discard', q, 50), ('draw', n, 54), ('discard', n, 54)] + end),
        ('a new indicator', {q: [35]}, 44, [('draw', q, 50), ('dora', None, 0), ('discard', q, 50), ('bye', q, None), ('un', q, None), ('draw', n, 54), ('discard', n, 54)] + end),
        ('a winning tile', {q: [40, 41, 42, 35]}, 44, [('draw', n, 0), ('discard', n, 0), ('win', q, n, [40, 41, 42, 60, 0], 1, 0, 'last')]),
        ('a winning hand', {q: [0, 41, 42, 35]}, 44, [('draw', o, 54), ('discard', o, 54), ('win', q, o, [0, 41, 42, 35, 54], 0, 1), ('win', n, o, [33, 34, 1, 54], 0, 51, 'last')]),
        ('a drawn game', {q: [35]}, 44, [('draw', q, 0), ('drawn', None, None)]),
        ('an aborted game', {q: [35]}, 44, [('draw', q, 50), ('drawn', None, 'yao9')]),
    ]
    if players == 3:
        out.append(('a north', {q: [120, 35]}, 44, [('draw', q, 50), ('call', q, 'north', [120], [], None), ('draw', q, 58), ('discard', q, 58)] + end))
    if players == 4 and q:
        l = (q - 1) % players
        out += [('a straight claiming the tile', {q: [5, 9, 39], l: [0]}, 44, [('draw', l, 54), ('discard', l, 0), ('call', q, 'chi', [5, 9], [0], l), ('discard', q, 39)] + end),
                ('a straight with the tile', {q: [0, 5, 39], l: [9]}, 44, [('draw', l, 54), ('discard', l, 9), ('call', q, 'chi', [0, 5], [9], l), ('discard', q, 39)] + end)]
    return out


# ---- facts read from a scene: {key: value}, the value a Python value or None

class Un:
    """a value the analysis does not know"""

    def __repr__(self):
        return '?'


UN = Un()


def deep(S, st, v, path, out, seen=()):
    """the constant leaves of a value by the way they are reached"""
    v = st.simp(v) if isinstance(v, V) else v
    if type(v) is Const:
        out[path] = v.v
        return
    if type(v) is Tup:
        for i, x in enumerate(v.items):
            deep(S, st, x, path + (i,), out, seen)
        return
    if type(v) is not Ref:
        out[path] = UN
        return
    if v.oid in seen or len(seen) > 8:
        return
    seen = seen + (v.oid,)
    o = st.get(v.oid)
    nm = (o.attrs or {}).get('_name_')
    if type(nm) is Const:
        out[path] = (cls_name(st, o), nm.v)
        return
    k = m_coll.kind_of(S.I, st, v)
    if k == 'list':
        es = S.I.entries(st, v)
        if es is None or any(e.g or e.many for e in es):
            out[path] = UN
            return
        out[path + ('length',)] = len(es)
        for i, e in enumerate(es):
            deep(S, st, e.v, path + (i,), out, seen)
        return
    if k == 'set':
        es = S.I.set_elems(st, o)
        xs = [st.simp(e.v) for e in es]
        if any(e.g or e.many for e in es) or not all(type(x) is Const for x in xs):
            out[path] = UN
        else:
            out[path] = frozenset(x.v for x in xs)
        return
    if k == 'dict':
        for e in o.data.values():
            q = {}
            deep(S, st, e.k, (), q, seen)
            if e.g or any(x is UN for x in q.values()):
                out[path] = UN
                return
            deep(S, st, e.v, path + (repr(sorted(q.items(), key=repr)),), out, seen)
        return
    if o.kind == 'inst':
        out[path + ('class',)] = cls_name(st, o)
        for a, x in sorted((o.attrs or {}).items()):
            if isinstance(x, V):
                deep(S, st, x, path + (a,), out, seen)
        return
    out[path] = UN


def facts_commands(S, v, sc):
    mk = Makers(S)
    tc = S.g(*c11.TC)
    box = []

    def f(I, s):
        els = build_scene(v, I, s, sc)
        return I.call(s, tc, [I.call(s, S.g(c32.READER, 'TenhouRecord'), [I.new_list(s, els)], {}, None)], {}, None)
    o = S.run(f, S.state(), listen=mk)
    if o.dead:
        return failed(S, o)
    cs = commands(S, o.st, o.value)
    if cs is None or any(c.many or c.lits for c in cs):
        return None
    out, at = {}, {}
    nth = {}
    for c in cs:
        sub, time = const(c.sub_scope_id), const(c.timestamp)
        subject = v.back(sub) if type(sub) is int else sub
        k = ('command', time, subject, c.name('property'), c.name('update_method'))
        nth[k] = nth.get(k, 0) + 1
        k += (nth[k],)
        at[k] = mk.where(c)
        for what in ('event', 'value', 'state'):
            x = getattr(c, what)
            if x is not None:
                deep(S, c.st, x, k + (what,), out)
    return out, lambda k: at.get(k[:6], '')


def const(v):
    return v.v if type(v) is Const else UN


def failed(S, o):
    names = sorted({str(x) for x, _ in S.exc(o)})
    return ({('outcome',): 'raises ' + ', '.join(names)}, lambda k: '') if names else None


def facts_rows(S, v, sc):
    from .c20 import rows_of
    T = S.g(EV, 'TenhouEvent')
    w = S.I.class_attr(S.base, T, 'to_paifu')
    at = S.loc_of(w) if isinstance(w, V) else S.where_class(T)

    def f(I, s):
        evs = wrap(S, s, build_scene(v, I, s, sc))
        return Tup(tuple(I.call_method(s, e, 'to_paifu', [], {}, None) for e in evs))
    o = S.run(f, S.state())
    if o.dead:
        return failed(S, o)
    out = {}
    for i, x in enumerate(o.value.items):
        rows = rows_of(S, o.st, x)
        if rows is None:
            out['row', i] = UN
            continue
        if rows and str(const(rows[0].get('event_type'))).startswith('INIT'):
            # a row for every seat: by player
            first = rows[:v.players]
            rows = [first[v.p(p)] for p in range(v.players)] + rows[v.players:] if len(first) == v.players else rows
        out['row', i, 'length'] = len(rows)
        for j, r in enumerate(rows):
            et = const(r.get('event_type'))
            for c, y in r.items():
                y = const(y)
                if c in ('player', 'origin') and isinstance(y, str) and y.isdigit() and et != 'DORA':
                    y = 'player %d' % v.back(int(y))
                if c == 'event_type' and isinstance(y, str) and y.startswith('INIT'):
                    y = 'INIT'
                out['row', i, j, c] = y
    return out, lambda k: at


def facts_texts(S, v, sc):
    R = S.g(c32.READER, 'TenhouRecord')
    at = S.where_class(R)

    def f(I, s):
        els = build_scene(v, I, s, sc)
        r = I.call(s, R, [I.new_list(s, els)], {}, None)
        gs = seq(S, s, I.get_attr(s, r, 'game_list', None)) or []
        ps = seq(S, s, I.get_attr(s, r, 'players', None)) or []
        ps = [ps[v.p(p)] for p in range(v.players)] if len(ps) == v.players else []
        evs = wrap(S, s, els)
        return Tup((I.call(s, Bi('str'), [r], {}, None), Tup(tuple(I.call_method(s, e, 'base_str', [], {}, None) if i > 3 else NONE for i, e in enumerate(evs))), Tup(tuple(I.call(s, Bi('str'), [g], {}, None) for g in gs)),
                    Tup(tuple(I.call(s, Bi('str'), [g], {}, None) for g in ps)), Tup(tuple(Tup(tuple(I.get_attr(s, g, a, None) for a in ('name', 'level_str', 'rate', 'sex'))) for g in ps))))
    o = S.run(f, S.state())
    if o.dead:
        return failed(S, o)
    out = {}
    for n, x in zip(('the record as text', 'event as text', 'game as text', 'player as text', 'player'), o.value.items):
        deep(S, o.st, x, (n,), out)
    for k, x in out.items():
        if k[0] == 'event as text' and isinstance(x, str):
            out[k] = re.sub(r'player (\d)\b', lambda m: 'player %d' % v.back(int(m.group(1))), x)
    return out, lambda k: at


def facts_trackers(S, v, sc):
    out = {}
    wh = {}
    for name in TRACKERS:
        wh[name] = S.where_class(S.g(STATE, TRACKERS[name][0]))

    def f(I, s):
        evs = wrap(S, s, build_scene(v, I, s, sc))
        res = []
        for p in range(v.players):
            pl = player(I, S, s, v.p(p))
            for name in TRACKERS:
                if name in ('dora indicators', 'unseen tiles') and p:
                    continue
                t = tracker(I, S, s, name, pl, v.players)
                vs = []
                for e in evs:
                    t = I.call_method(s, t, 'scan', [e], {}, None)
                    vs.append(I.get_attr(s, t, 'value', None))
                # the same by way of the events the tracker calls important, piece by piece
                for k in range(0, len(evs), 4):
                    t = I.call_method(s, tracker(I, S, s, name, pl, v.players), 'passed_events', [I.new_list(s, evs[:k + 4])], {}, None)
                    vs.append(I.get_attr(s, t, 'value', None))
                res.append((name, p, vs))
        box.append(res)
        return NONE
    box = []
    o = S.run(f, S.state())
    if o.dead:
        return failed(S, o)
    for name, p, vs in box[0]:
        for i, x in enumerate(vs):
            q = {}
            deep(S, o.st, x, (), q)
            for k, y in q.items():
                if k and k[-1] == 'from_who' and type(y) is int:
                    y = 'player %d' % v.back(y) if y in range(v.players) else y
                elif k[-1:] == ('length',):
                    pass
                elif 'tiles' in str(k[-1:]) or not k or name != 'melds':
                    y = tiles_back(v, y)
                elif name == 'melds' and k[-1] != 'class':
                    continue
                out[('tracker', p if name not in ('dora indicators', 'unseen tiles') else 'all', name, i) + k] = y
    return out, lambda k: wh.get(k[2], '') if len(k) > 2 else ''


def tiles_back(v, y):
    if isinstance(y, frozenset):
        return frozenset(v.t(x) if type(x) is int else x for x in y)
    return v.t(y) if type(y) is int else y


def turned(script, v):
    """the script with the numbers of the variant"""
    ds = []
    for oya, hands, ind, events in script.deals:
        ev = []
        for k, p, x in events:
            if k in ('draw', 'discard', 'dora'):
                x = v.t(x)
            if k in ('win', 'end') and x is not None:
                x = v.p(x)
            ev.append((k, v.p(p) if p is not None else None, x))
        ds.append((v.p(oya), {v.p(p): [v.t(x) for x in h] for p, h in hands.items() if p < v.players}, v.t(ind), ev))
    return reports.Script(script.name, script.players, ds)


def facts_report(S, v, sc):
    script, me = sc
    j = reports.Judge(S)
    b = reports.report(S, turned(script, v), v.p(me), j)
    if b.out.dead:
        return failed(S, b.out)
    if b.kwargs is None or j.unclear:
        return None
    out = {}
    for k, x in b.kwargs.items():
        if k != 'player':
            deep(S, b.rst, x, ('report', k), out)
    at = S.loc(b.at)
    return out, lambda k: at


# ---- comparing

BLANK = (None, '', (), frozenset())


def skeleton(v):
    return 'blank' if v in BLANK and not isinstance(v, (bool, int, float)) else type(v).__name__


MISSING = 'missing'


def compare(S, rep, name, zero, ordinary, mapped=True, role=None, numbers=False):
    """zero: facts of the variant with the zero; ordinary: facts of the others"""
    if zero is None or any(x is None for x in ordinary):
        return rep.undecided(name, '', 'facts not definite')
    zf, at = zero
    of = [x[0] for x in ordinary]
    keys = sorted(set(zf) | set().union(*of), key=repr)
    bad = None
    n = unknown = 0
    for k in keys:
        if role is not None and not role(k):
            continue
        z = zf.get(k, MISSING)
        xs = [f.get(k, MISSING) for f in of]
        if z is UN or UN in xs:
            unknown += 1
            continue
        n += 1
        why = ''
        if not same_py(z, xs[0]) and all(same_py(x, xs[0]) for x in xs):
            why = 'it is %s with the zero and %s otherwise' % (short(z), short(xs[0]))
        elif len({skeleton(x) for x in xs}) == 1 and skeleton(z) != skeleton(xs[0]) and 'blank' in (skeleton(z), skeleton(xs[0])):
            why = 'it is %s with the zero, %s otherwise' % (short(z), short(xs[0]))
        elif numbers and all(type(x) is int for x in [z] + xs) and z != 2 * xs[0] - xs[1]:
            why = 'it is %s with 0 but %s with the next numbers' % (z, xs)
        if why and bad is None:
            w = at(k) or next((x[1](k) for x in ordinary if x[1](k)), '')
            bad = (k, why, w)
    rep.count('facts compared', n)
    if bad:
        rep.bad(name, bad[2], '%s: %s' % (' '.join(str(x) for x in bad[0]), bad[1]))
    elif n:
        rep.ok(name, '', '%d facts' % n)
    else:
        rep.undecided(name, '', 'no facts (%d unknown)' % unknown)


def same_py(a, b):
    return type(a) is type(b) and a == b


def short(x):
    if isinstance(x, frozenset):
        x = sorted(x)
    return repr(x)[:80]


READERS = {'commands': facts_commands, 'rows': facts_rows, 'texts': facts_texts, 'trackers': facts_trackers}


def tile_twin(S, rep, players, i, reader):
    sc = scenes(players)[i]
    f = READERS[reader]
    name = 'tile number 0, %s, %d players, %s' % (sc[0], players, reader)
    compare(S, rep, name, f(S, Var(players), sc), [f(S, Var(players, swap=True), sc)])


def roles(sc, players):
    """seats with a part in each event, by timestamp"""
    out = {3: {2 % players, 1}}
    for i, e in enumerate(sc[3]):
        r = {e[1]} if e[1] is not None else set()
        if e[0] == 'win':
            r.add(e[2])
        if e[0] == 'call' and e[5] is not None:
            r.add(e[5])
        out[4 + i] = r
    return out


def seat_turns(S, rep, players, i, reader):
    q = 1
    sc = scenes(players, q)[i]
    f = READERS[reader]
    facts = [f(S, Var(players, turn=r), sc) for r in range(players)]
    rs = roles(sc, players)
    for c in range(players):
        z = -c % players                          # the turn which puts player c on seat 0

        def role(k):
            if k[0] in ('command', 'tracker') and type(k[2 if k[0] == 'command' else 1]) is int:
                return k[2 if k[0] == 'command' else 1] == c
            if k[0] == 'command':
                return c in rs.get(k[1], ())
            if k[0] == 'row':
                return c in rs.get(k[1], ()) or (k[1] == 3 and len(k) > 3 and k[2] == c)
            if k[0] == 'event as text':
                return c in rs.get(k[1], ())
            if k[0] in ('player', 'player as text'):
                return len(k) > 1 and k[1] == c
            return True
        name = 'player %d on seat 0, %s, %d players, %s' % (c, sc[0], players, reader)
        compare(S, rep, name, facts[z], [facts[r] for r in range(players) if r != z], role=role)


def report_turns(S, rep, players, i):
    sc = (reports.scripts(1, players)[i], 1)
    facts = [facts_report(S, Var(players, turn=r), sc) for r in range(players)]
    z = -1 % players
    compare(S, rep, 'player on seat 0, report of %s, %d players' % (sc[0].name, players), facts[z], [facts[r] for r in range(players) if r != z])


def plain_scripts(players):
    """reports with tile number 0: in hand, drawn, put out, an indicator, put out by others"""
    out = []
    me, n = 1, (1 + 1) % players
    for what in ('kept', 'put out from the hand', 'drawn and put out', 'drawn, another one put out', 'put out by another player', 'an indicator', 'a new indicator', 'put out in richii'):
        pool = reports.Pool({0, 1}, players, 13)
        hands = {p: pool.take(13) for p in range(players)}
        ind = pool.one()
        ev = []
        for turn in range(3):
            for p in range(players):
                t = pool.one()
                x = hands[p][turn + 2]
                if p == me and turn == 1:
                    if what == 'kept':
                        hands[p][7] = 0
                    elif what in ('put out from the hand', 'put out in richii'):
                        hands[p][turn + 2] = x = 0
                    elif what == 'drawn and put out':
                        t = x = 0
                    elif what == 'drawn, another one put out':
                        t = 0
                if p == n and turn == 0 and what == 'put out by another player':
                    t = x = 0
                ev.append(('draw', p, t))
                if p == me and turn == 1 and what == 'put out in richii':
                    ev.append(('reach', p, 1))
                ev.append(('discard', p, x))
                if p == me and turn == 1 and what == 'put out in richii':
                    ev.append(('reach', p, 2))
            if turn == 1:
                ev.append(('dora', None, 0 if what == 'a new indicator' else pool.one()))
        ev.append(('end', n, me))
        out.append(reports.Script(what, players, [(0, hands, 0 if what == 'an indicator' else ind, ev)]))
    return out


def report_twin(S, rep, players, i):
    sc = (plain_scripts(players)[i], 1)
    compare(S, rep, 'tile number 0 %s, report, %d players' % (sc[0].name, players), facts_report(S, Var(players), sc), [facts_report(S, Var(players, swap=True), sc)])


NUMBERS = [('round', 1), ('round', 4), ('honba', 1), ('sticks', 1), ('ten', 100), ('rten', 100), ('sc', 100), ('delta', 30), ('final', 30), ('point', 5), ('rate', 600),
           ('dan', 4), ('yaku', 3), ('han', 1), ('fu', 20), ('points', 1500)]


def number_twins(S, rep, players, name, k, reader):
    for i in {'rten': [5], 'point': [0, 15]}.get(name, [0, 14, 15]):
        sc = scenes(players)[i]
        f = READERS[reader]
        vs = [f(S, Var(players, nums={name: x}), sc) for x in (0, k, 2 * k)]
        compare(S, rep, '%s 0 next to %d and %d, %s, %d players, %s' % (name, k, 2 * k, sc[0], players, reader), vs[0], vs[1:],
                numbers=reader == 'commands' and name not in ('yaku', 'dan'))


# ---- commands with zero-like values

ZEROS = {'index': (0, 3, 7), 'score': (0, 3, 1000), 'int': (0, 3, 7), 'float': (0.0, 1.5, -2.5), 'bool': (False, True, True), 'str': ('', 'x', 'y'),
         'list': ([], ['a'], ['b']), 'tiles': ([], ['1m'], ['2p']), 'melds': ([], [['1m', '1m', '1m']], [['2p', '2p', '2p']])}
IN = ('mahjong.record.universe.interpreter', 'GameInterpreter')
EX = ('mahjong.record.universe.executor', 'GameExecutor')


def run_commands(S, cs, strict):
    """outcome of executing: ('raises', ...) or states of the property after each command"""
    st = S.state()
    lst = [c.make(S, st) for c in cs]

    def f(I, s):
        ex = I.call(s, S.g(*EX), [], {'strict_mode': Const(strict)}, None)
        return I.call(s, Bi('list'), [I.call_method(s, ex, 'execute', [I.new_list(s, lst)], {}, None)], {}, None)
    o = S.run(f, st)
    if o.dead:
        names = sorted({str(x) for x, _ in S.exc(o)})
        return ('raises',) if names else None
    es = S.I.entries(o.st, o.value)
    if es is None or any(e.g or e.many for e in es):
        return None
    out = []
    for e in es:
        fl = flat(S, o.st, e.v)
        if fl is None:
            return None
        vs = find(fl, cs[-1].scope, cs[-1].sub, cs[-1].prop)
        if len(vs) != 1:
            out.append('missing' if not vs else 'several')
            continue
        q = {}
        deep(S, o.st, vs[0], (), q)
        if UN in q.values():
            return None
        out.append(q)
        times = [v for k, v in fl.items() if k[0] == 'global']
        q['time'] = [const(x) for x in times]
    return out


def wanted(x):
    """the leaves deep() gives for a Python value"""
    out = {}

    def go_(y, path):
        if isinstance(y, list):
            out[path + ('length',)] = len(y)
            for i, z in enumerate(y):
                go_(z, path + (i,))
        else:
            out[path] = y
    go_(x, ())
    return out


def executing(S, rep, scope, p, typ):
    z, a, b = ZEROS[typ]
    at = S.loc_of(S.g(*EX))
    n = '%s %s' % (scope, p)
    # stating: the value is kept, whatever stood there
    for upd in ('REPLACE', 'ASSERT_EQUAL_OR_SET'):
        for seat in (0, 2) if scope == 'player' else (1,):
            for time in (0, 5):
                got = run_commands(S, [C(scope, p, upd, z, seat, time)], True)
                ord_ = run_commands(S, [C(scope, p, upd, a, seat, 7)], True)
                judge_value(rep, '%s: %s %r, seat %d, time %d' % (n, upd, z, seat, time), at, got, ord_, z, a, time, 7)
    got = run_commands(S, [C(scope, p, 'REPLACE', a, 0, 0), C(scope, p, 'REPLACE', z, 0, 0)], True)
    ord_ = run_commands(S, [C(scope, p, 'REPLACE', b, 0, 0), C(scope, p, 'REPLACE', a, 0, 0)], True)
    judge_value(rep, '%s: %r replaced by %r' % (n, a, z), at, got, ord_, z, a, 0)
    # checking: z against a, a against z fail as a against b does; z against z passes as a against a does
    if typ != 'bool':
        ref = run_commands(S, [C(scope, p, 'REPLACE', a, 0, 0), C(scope, p, 'ASSERT_EQUAL_OR_SET', b, 0, 1)], True)
        for x, y in ((z, a), (a, z)):
            got = run_commands(S, [C(scope, p, 'REPLACE', x, 0, 0), C(scope, p, 'ASSERT_EQUAL_OR_SET', y, 0, 1)], True)
            judge_same(rep, '%s: check of %r against %r' % (n, y, x), at, got, ref, ('raises',))
    ref = run_commands(S, [C(scope, p, 'REPLACE', a, 0, 0), C(scope, p, 'ASSERT_EQUAL_OR_SET', a, 0, 1)], True)
    got = run_commands(S, [C(scope, p, 'REPLACE', z, 0, 0), C(scope, p, 'ASSERT_EQUAL_OR_SET', z, 0, 1)], True)
    if got is not None and ref is not None:
        rep.decide(not (got == ('raises',) and ref != ('raises',)), '%s: check of %r against itself' % (n, z), at, 'it fails')
    if typ in ('index', 'int', 'score', 'float'):
        for upd, sign in (('ADD', 1), ('REMOVE', -1)):
            if upd == 'REMOVE' and typ == 'index':
                continue
            for old, new in ((z, a), (a, z), (z, z)):
                got = run_commands(S, [C(scope, p, 'REPLACE', old, 0, 0), C(scope, p, upd, new, 0, 0)], True)
                ord_ = run_commands(S, [C(scope, p, 'REPLACE', b, 0, 0), C(scope, p, upd, a, 0, 0)], True)
                judge_value(rep, '%s: %s %r to %r' % (n, upd, new, old), at, got, ord_, old + sign * new, b + sign * a, 0)
    # annotating
    ai = S.loc_of(S.g(*IN))
    for seat in (0, 2) if scope == 'player' else (1,):
        got, ord_ = [interpreted(S, C(scope, p, 'REPLACE', x, seat, 0)) for x in (z, a)]
        judge_value(rep, '%s: %r while translating, seat %d' % (n, z, seat), ai, got and [got], ord_ and [ord_], z, a, None)


def interpreted(S, c):
    st = S.state()
    cmd = c.make(S, st)

    def f(I, s):
        gi = I.call(s, S.g(*IN), [], {}, None)
        return I.call_method(s, gi, 'interpret', [cmd], {}, None)
    o = S.run(f, st)
    if o.dead:
        return ('raises',) if S.exc(o) else None
    q = {}
    deep(S, o.st, o.value, (), q)
    return None if UN in q.values() else q


def match(got, want, time, timed=False):
    if not isinstance(got, list) or not got or not isinstance(got[-1], dict):
        return False
    g = dict(got[-1])
    ts = g.pop('time', None)
    w = wanted(want)
    return set(g) == set(w) and all(g[k] == w[k] and isinstance(g[k], bool) == isinstance(w[k], bool) for k in w) and (time is None or (not ts and not timed) or ts == [time])


def judge_value(rep, name, at, got, ord_, z, a, time, ord_time=None):
    """the zero value is kept; nothing is said where an ordinary one is not kept either"""
    if got is None or ord_ is None:
        return rep.undecided(name, at, 'outcome unknown')
    if match(ord_, a, time if ord_time is None else ord_time):
        # where an ordinary time is kept, so is zero
        timed = isinstance(ord_[-1], dict) and bool(ord_[-1].get('time'))
        rep.decide(match(got, z, time, timed), name, at, 'the outcome is %s' % (got[-1:],))


def judge_same(rep, name, at, got, ref, want):
    if got is None or ref is None:
        return rep.undecided(name, at, 'outcome unknown')
    if ref == want:
        rep.decide(got == want, name, at, 'it passes')


FORM = {'index': (0, 3), 'score': (0, 1000), 'int': (0, 3), 'float': (0.0, 1.5), 'bool': (False, True)}


def forms(S, rep, scope, p, typ):
    """commands through their record forms"""
    at = S.loc_of(S.g(CM, 'GameCommand'))
    for how, back in (('to_record', 'from_record'), ('to_raw_record', 'from_raw_record')):
        for field in ('timestamp', 'value', 'state', 'sub_scope_id'):
            if field == 'sub_scope_id' and scope != 'player':
                continue
            z, a = (0, 3) if field in ('timestamp', 'sub_scope_id') else FORM.get(typ, (None, None))
            if z is None:
                continue
            rs = []
            for x in (z, a):
                st = S.state()
                kw = {'timestamp': {'timestamp': Const(x)}, 'value': {'value': Const(x)}, 'state': {'state': Const(x)}, 'sub_scope_id': {'sub_scope': Const(x)}}[field]
                cmd = C(scope, p, 'REPLACE', a if field != 'value' and typ in FORM else 1, 1, 5, 'draw').make(S, st, **kw)

                def f(I, s):
                    r = I.call_method(s, cmd, how, [], {}, None)
                    c = I.call_method(s, S.g(CM, 'GameCommand'), back, [r], {}, None)
                    return I.get_attr(s, c, field, None)
                o = S.run(f, st)
                if o.dead:
                    rs.append('raises' if S.exc(o) else UN)
                else:
                    rs.append(const(o.st.simp(o.value)))
            name = '%s %s: %s %r through %s and %s' % (scope, p, field, z, how, back)
            if UN in rs:
                rep.undecided(name, at, 'outcome unknown')
            elif same_py(rs[1], a):
                rep.decide(same_py(rs[0], z), name, at, 'it comes back as %r' % (rs[0],))
    # cells of a table as they are read
    tuples = S.g(CM, '_Game_command') if S.has(CM, '_Game_command') else None
    z, a = CELL.get(typ, (None, None))
    if tuples is None:
        return
    for field, z, a, wz, wa in [('value', z, a, z, a), ('state', z, a, z, a), ('timestamp', 0, 3, 0, 3), ('sub_scope_id', 0, 3, 0, 3), ('sub_scope_id', '0', '3', 0, 3)]:
        if z is None or field == 'sub_scope_id' and scope != 'player':
            continue
        rs = []
        for x in (z, a):
            row = dict(timestamp=float('nan'), event=float('nan'), scope=scope, sub_scope_id='2' if scope == 'player' else 'all', property=p, update_method='REPLACE',
                       value=float('nan'), state=float('nan'))
            row[field] = x

            def f(I, s):
                r = I.call(s, tuples, [], {k: Const(v) for k, v in row.items()}, None)
                return I.get_attr(s, I.call_method(s, S.g(CM, 'GameCommand'), 'from_record', [r], {}, None), field, None)
            o = S.run(f, S.state())
            rs.append(const(o.st.simp(o.value)) if not o.dead else 'raises' if S.exc(o) else UN)
        name = '%s %s: %s read from a cell with %r' % (scope, p, field, z)
        if UN in rs:
            rep.undecided(name, at, 'outcome unknown')
        elif same_py(rs[1], wa):
            rep.decide(same_py(rs[0], wz), name, at, 'it comes back as %r' % (rs[0],))


CELL = {'index': (0, 3), 'score': (0, 1000), 'int': (0, 3), 'float': (0.0, 1.5), 'bool': (False, True)}


def positions(S, rep, players):
    """the first event has a position as the others have"""
    v = Var(players)
    for i, sc in enumerate(scenes(players)):
        name = 'position of the first event, %s, %d players' % (sc[0], players)
        with rep.group(name):
            mk = Makers(S)
            tc = S.g(*c11.TC)

            def f(I, s):
                els = build_scene(v, I, s, sc)
                return I.call(s, tc, [I.call(s, S.g(c32.READER, 'TenhouRecord'), [I.new_list(s, els)], {}, None)], {}, None)
            o = S.run(f, S.state(), listen=mk)
            cs = None if o.dead else commands(S, o.st, o.value)
            if cs is None or any(c.many or c.lits for c in cs):
                rep.undecided(name, '', 'no outcome')
                continue
            ts = [const(c.timestamp) for c in cs]
            at = [mk.where(c) for c, t in zip(cs, ts) if t is None]
            if UN in ts:
                rep.undecided(name, '', 'positions unknown')
            elif any(type(t) is int for t in ts):
                rep.decide(None not in ts, name, at[0] if at else '', 'a command of it has no position')
        if i > 1:
            break


# ---- the program

def program(S, rep):
    at = S.loc_of(S.g(programs.CHECK, 'main'))
    rs = {}
    for choice in '1234':
        c = programs.Calls()
        o = S.run(programs.program(S, programs.CHECK, 0), S.state(), listen=c, intercepts=programs.hooks([Const(programs.LINK), Const(choice)]), steps=3000000)
        rs[choice] = None if o.dead else [d for d in c.all if d['name'] in ('open', 'builtins.open', 'io.open')]
    if any(x is None for x in rs.values()):
        return rep.undecided('choice of the first player in the record check program', at, 'no outcome')
    n = {k: len(x) for k, x in rs.items()}
    if n['2'] == n['3'] == n['4']:
        rep.decide(n['1'] == n['2'], 'choice of the first player in the record check program', at, 'it writes %d files, the other choices %d' % (n['1'], n['2']))
    else:
        rep.undecided('choice of the first player in the record check program', at, 'files %s' % n)


def run(rep):
    S = Session(rep, steps=8000000)
    S.g(*c11.TC)
    S.g(EV, 'TenhouEvent')
    S.g(STATE, 'PlayerHand')
    S.g(c32.READER, 'TenhouRecord')
    S.g(*EX), S.g(*IN), S.g(CM, 'GameCommand')
    jobs = []
    for players in (4, 3):
        n = len(scenes(players))
        for i in range(n):
            for r in READERS:
                if players == 4:
                    jobs.append((tile_twin, (players, i, r)))
                jobs.append((seat_turns, (players, i, r)))
        for i in range(len(reports.scripts(1, players))):
            jobs.append((report_turns, (players, i)))
        for i in range(8) if players == 4 else (0, 2):
            jobs.append((report_twin, (players, i)))
    for name, k in NUMBERS:
        for r in ('commands', 'rows', 'texts'):
            jobs.append((number_twins, (4, name, k, r)))
    for scope, p, typ in props():
        jobs.append((executing, (scope, p, typ)))
        jobs.append((forms, (scope, p, typ)))
    jobs += [(positions, (4,)), (positions, (3,)), (program, ())]
    rep.parallel(jobs, lambda j: j[0](S, rep, *j[1]), limit=120)
