"""C15: published game states and command states never change afterwards."""
from ..universe import *
from ..waiting import drain

RULE = ('Heap-effect analysis of the executor and the translation: whenever a state or a command is handed out, its observable content (all properties '
        'with the contents of their lists) is frozen; after every later command it is read again and must have the same value numbers. Every mapping '
        'operation that changes a dictionary is applied to a snapshot, which must refuse it or stay as it was. Covers every property and update kind '
        'and whole abstract records of 3 and 4 players.')
EXM = 'mahjong.record.universe.executor'
TENHOU = 'mahjong.record.universe.tenhou'


def content(S, st, snap):
    fl = flat(S, st, snap)
    if fl is None:
        raise Unknown('state')
    return {k: frozen(S, st, v) for k, v in fl.items()}


def changed(a, b, assume):
    """first certain difference as text, '' when none, None when not comparable"""
    if set(a) != set(b):
        return 'properties %s appeared or vanished' % sorted(map(str, set(a) ^ set(b)))[:3]
    sure = True
    for k in a:
        r = same_frozen(a[k], b[k], assume)
        if r is False:
            return '%s was %s and became %s' % (k[-1], describe(a[k]), describe(b[k]))
        if r is None:
            sure = None
    return '' if sure else None


def sequences():
    """commands of one property: every later update kind after every earlier one"""
    for scope, p, t in props():
        for old, new in samples(t):
            if old == new and not is_list(t):
                continue
            seq = [C(scope, p, 'REPLACE', old, 1, 1)]
            cur = old
            for i, u in enumerate(('ADD', 'REMOVE', 'ADD', 'ASSERT_EQUAL_OR_SET', 'ADD', 'RESET_DEFAULT', 'ADD', 'REPLACE', 'ADD')):
                w = after(t, u, cur, new)
                if w is None:
                    continue
                seq.append(C(scope, p, u, None if u == 'RESET_DEFAULT' else new, 1, i + 2))
                cur = w
            if is_list(t):
                seq.append(C(scope, p, 'RESET_DEFAULT', None, 2, 20))
                seq.append(C(scope, p, 'ADD', new, 2, 21))
                seq.append(C(scope, p, 'ADD', new, 1, 22))
            yield '%s %s %s %s' % (scope, p, old, new), seq


def run(rep):
    S = Session(rep, steps=40000000)
    S.g(EXM, 'GameExecutor')
    jobs = [(n, 'seq', s) for n, s in sequences()]
    jobs += [('record of %d players' % P, 'record', P) for P in (4, 3)]
    jobs += [('writing into a state', 'write', None)]
    rep.parallel(jobs, lambda j: {'seq': sequence, 'record': whole, 'write': writes}[j[1]](rep, S, j[0], j[2]), limit=600)


def watch(rep, S, name, where, build, quick=None):
    """execute commands, freezing every state handed out, and read them all again at the end"""
    kept = []
    cmds = []

    def go_(I, s):
        lst = build(I, s)
        for e in I.entries(s, lst):
            cmds.append((e.v, frozen_cmd(S, s, e.v)))
        ex = I.call(s, S.g(EXM, 'GameExecutor'), [], {}, None)
        g = I.call_method(s, ex, 'execute', [lst], {}, None)

        def each(q, x):
            kept.append((x, content(S, q, x)))
            if len(kept) > 1:       # the one before, right after the command
                b = changed(kept[-2][1], content(S, q, kept[-2][0]), q.guards)
                if b:
                    late.append((len(kept) - 2, len(kept) - 1, b, eff.last(q, kept[-2][0])))
        drain(I, s, g, each)
        return NONE
    late = []
    eff = Effects_(S)
    o = S.run(go_, S.state(), intercepts=STUBS, listen=eff)
    if o.dead:
        rep.bad(name + ': executed', where, 'raises %s' % [n for n, _ in S.exc(o)])
        return
    rep.count('states handed out', len(kept))
    if late:
        i, j, b, at = late[0]
        rep.bad(name + ': state %d after command %d' % (i, j), at or where, b)
        return
    verdict = True
    for i, (x, was) in enumerate(kept):
        b = changed(was, content(S, o.st.copy(), x), o.st.guards)
        if b:
            rep.bad(name + ': state %d at the end' % i, eff.last(o.st, x) or where, b)
            return
        if b is None:
            verdict = None
    rep.decide(verdict, name + ': states stay', where, 'not comparable')
    verdict = True
    for i, (c, was) in enumerate(cmds):
        r = same_frozen(was, frozen_cmd(S, o.st, c), o.st.guards)
        if r is False:
            rep.bad(name + ': command %d' % i, eff.last(o.st, c) or where, 'was %s, became %s' % (describe(was), describe(frozen_cmd(S, o.st, c))))
            return
        if r is None:
            verdict = None
    rep.decide(verdict, name + ': commands stay', where, 'not comparable')


class Effects_:
    """in-place changes seen, for the report: the last one of an object the changed thing holds"""

    def __init__(self, S):
        self.S, self.seen = S, []

    def __call__(self, k, d):
        if k == 'mutate' and d.get('node') is not None:
            self.seen.append((d['oid'], d['node'], tuple(d.get('stack') or ())))

    def last(self, st, x):
        from ..effects import reach as held
        try:
            oids = set(held(st, [x]))
        except Exception:
            return ''
        for oid, node, stack in reversed(self.seen):
            fr = [f for f in stack if f.fd is not None]
            if oid in oids and fr and not fr[-1].fd.qual.endswith('.__init__'):
                return '%s %s' % (self.S.loc(node), fr[-1].fd.qual)
        return ''


def sequence(rep, S, name, seq):
    where = S.loc_of(S.g(EXM, 'GameExecutor'))
    watch(rep, S, name, where, lambda I, s: I.new_list(s, [c.make(S, s) for c in seq]))
    # the state attached to a command while translating
    kept = []

    def attach(I, s):
        gi = I.call(s, S.g('mahjong.record.universe.interpreter', 'GameInterpreter'), [], {}, None)
        for c in seq:
            k = c.make(S, s)
            r = I.call_method(s, gi, 'interpret', [k], {}, None)
            kept.append((r, frozen(S, s, r), k, frozen_cmd(S, s, k)))
        return NONE
    eff = Effects_(S)
    o = S.run(attach, S.state(), listen=eff)
    where = S.loc_of(S.g('mahjong.record.universe.interpreter', 'GameInterpreter'))
    if o.dead:
        rep.bad(name + ': interpreted', where, 'raises %s' % [n for n, _ in S.exc(o)])
        return
    verdict = True
    for i, (r, was, k, kwas) in enumerate(kept):
        for x, y in ((was, frozen(S, o.st, r)), (kwas, frozen_cmd(S, o.st, k))):
            q = same_frozen(x, y, o.st.guards)
            if q is False:
                rep.bad(name + ': attached state %d' % i, eff.last(o.st, r) or where, 'was %s, became %s' % (describe(x), describe(y)))
                return
            if q is None:
                verdict = None
    rep.decide(verdict, name + ': attached states stay', where, 'not comparable')


def game(I, st, P):
    k = calls()
    small = lambda oya, hands: small_init(I, st, oya, P, hands)
    ev = [go(I, st, P), un(I, st, P), taikyoku(I, st, 1),
          small(1, {0: [1, 5, 8, 9, 99], 1: [2, 6, 60, 61], 2: sorted(k['pon'].own) + [98, 97]}),
          draw(I, st, 1, 70), discard(I, st, 1, 60), call(I, st, 2, k['pon'].code), discard(I, st, 2, 98), draw(I, st, 0, 70), discard(I, st, 0, 70),
          draw(I, st, 2, sorted(k['added'].own)[0]), call(I, st, 2, k['added'].code), dora(I, st, leaf('nd', 0, 135)),
          reach(I, st, 0, 1), reach(I, st, 0, 2, P), agari(I, st, 0, 0, P, 'w1'),
          small(0, {0: [1, 5, 8, 9, 99], 1: [2, 6, 60, 61], 2: [40]}), draw(I, st, 0, 71), discard(I, st, 0, 71), bye(I, st, 1), ryuukyoku(I, st, P, 'w2', last=True)]
    return ev


def small_init(I, st, oya, P, hands):
    a = {'seed': '0,0,0,1,2,55', 'ten': '250,250,250,%s' % ('250' if P == 4 else '0'), 'oya': str(oya)}
    for p in range(4):
        a['hai%d' % p] = ','.join(str(x) for x in hands.get(p, [100 + p])) if p < P else ''
    return elem(I, st, 'INIT', **a)


def whole(rep, S, name, P):
    where = S.loc_of(S.g(TENHOU, 'to_commands'))
    watch(rep, S, name, where, lambda I, s: I.call(s, S.g(TENHOU, 'to_commands'), [record(S, s, game(I, s, P))], {}, None))
    # commands while the conversion goes on
    if not S.has(TENHOU, 'to_command_iter'):
        return
    kept = []

    def conv(I, s):
        g = I.call(s, S.g(TENHOU, 'to_command_iter'), [record(S, s, game(I, s, P)), Const(False)], {}, None)
        drain(I, s, g, lambda q, c: kept.append((c, frozen_cmd(S, q, c))))
        return NONE
    eff = Effects_(S)
    o = S.run(conv, S.state(), intercepts=STUBS, listen=eff)
    if o.dead:
        rep.undecided(name + ': converted', where, 'raises %s' % [n for n, _ in S.exc(o)])
        return
    rep.count('commands handed out', len(kept))
    for i, (c, was) in enumerate(kept):
        now = frozen_cmd(S, o.st, c)
        r = same_frozen(was, now, o.st.guards)
        if r is not True:
            rep.decide(r, name + ': command %d while converting' % i, eff.last(o.st, c) or where, 'was %s, became %s' % (describe(was), describe(now)))
            return
    rep.ok(name + ': commands stay while converting', where)


def writes(rep, S, name, _):
    cls = S.g(EXM, 'GameExecutor')
    I = S.I
    view = lambda s, x: I.get_item(s, x, attr(S, s, S.g(FM, 'ViewScope'), 'game'), None)
    levels = {'whole state': lambda s, x: x, 'a scope of it': view, 'the properties of a scope': lambda s, x: I.get_item(s, view(s, x), Const('single'), None)}
    key = {'whole state': lambda s: attr(S, s, S.g(FM, 'ViewScope'), 'game'), 'a scope of it': lambda s: Const('single'),
           'the properties of a scope': lambda s: prop(S, s, 'game', 'wind')}
    newkey = lambda s: prop(S, s, 'game', 'dealer')
    ops = {
        'item assignment': lambda s, d, k: I.set_item(s, d, k, Const(5), None),
        'new item': lambda s, d, k: I.set_item(s, d, newkey(s), Const(5), None),
        'item deletion': lambda s, d, k: I.del_item(s, d, k, None),
        'pop': lambda s, d, k: I.call_method(s, d, 'pop', [k], {}, None),
        'pop with default': lambda s, d, k: I.call_method(s, d, 'pop', [k, NONE], {}, None),
        'popitem': lambda s, d, k: I.call_method(s, d, 'popitem', [], {}, None),
        'update': lambda s, d, k: I.call_method(s, d, 'update', [I.new_dict(s, [(k, Const(5))])], {}, None),
        'clear': lambda s, d, k: I.call_method(s, d, 'clear', [], {}, None),
        'setdefault': lambda s, d, k: I.call_method(s, d, 'setdefault', [newkey(s), Const(5)], {}, None),
        'set': lambda s, d, k: I.call_method(s, d, 'set', [k, Const(5)], {}, None),
        'drop': lambda s, d, k: I.call_method(s, d, 'drop', [k], {}, None),
        'in-place union': lambda s, d, k: I.binop(s, 'BitOr', d, I.new_dict(s, [(k, Const(5))]), None),
        'copy then clear': lambda s, d, k: I.call_method(s, I.call_method(s, d, 'copy', [], {}, None), 'clear', [], {}, None),
    }
    for lv, at in levels.items():
        for op, do in ops.items():
            with rep.group('%s of %s' % (op, lv)):
                box = {}

                def go_(I, s):
                    ex = I.call(s, cls, [], {}, None)
                    cs = [C('game', 'wind', 'REPLACE', 1, 'all', 1).make(S, s), C('game', 'dora_indicators', 'REPLACE', ['1m'], 'all', 2).make(S, s)]
                    l = I.call(s, Bi('list'), [I.call_method(s, ex, 'execute', [I.new_list(s, cs)], {}, None)], {}, None)
                    x = I.entries(s, l)[-1].v
                    box['x'], box['st'] = x, s.copy()
                    box['d'] = at(s, x)
                    return NONE
                o = S.run(go_, S.state())
                if o.dead:
                    rep.undecided('%s of %s' % (op, lv), '', 'state not reached')
                    continue
                was = content(S, o.st.copy(), box['x'])
                dref = box['d']
                eff = Effects_(S)
                r = S.run(lambda I, s: do(s, dref, key[lv](s)), o.st.copy(), listen=eff)
                ends = [r.st] if not r.dead else []
                ends += [s for s, _ in r.raises]
                for e in ends:
                    b = changed(was, content(S, e.copy(), box['x']), e.guards)
                    rep.decide(None if b is None else b == '', '%s of %s leaves it alone' % (op, lv), eff.last(e, box['x']) or S.loc_of(cls), b)
