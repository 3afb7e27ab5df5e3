"""C16: strict mode is honoured and no event is dropped silently."""
from ..universe import *
from . import c11

RULE = ('Path analysis of the translation and the executor with the strict flag as a constant: events that no handler understands, at every position, '
        'must leave every path of a strict conversion with an error and every path of a lenient one with a call of a warning function; all '
        'events of the format (3 and 4 players, every seat, call, win and draw kind) must produce a command on every path; a failed check '
        'must raise / warn likewise, and a passed check must do neither. Handlers registered in each of the offered ways must be found.')
TENHOU = 'mahjong.record.universe.tenhou'
EXM = 'mahjong.record.universe.executor'
XM = 'mahjong.record.universe.tenhou.xml_macher'


def unknown(I, st):
    return {
        'unheard tag': elem(I, st, 'UNHEARD'),
        'unheard tag with attributes': elem(I, st, 'UNHEARD', who='0', hai='1', type='1', m='5'),
        'tag with an unknown seat letter': elem(I, st, 'X12'),
        'draw letter without a number': elem(I, st, 'T'),
        'riichi with an unknown step': elem(I, st, 'REACH', who='1', step='3'),
        'players without names': elem(I, st, 'UN', n0='', n1='', n2='', n3=''),
        'lower case tag': elem(I, st, 'dora', hai='5'),
    }


class Warned:
    def __init__(self, S):
        self.S, self.calls = S, []

    def __call__(self, k, d):
        if k == 'ext_call':
            n = str(d['name']).split('.')[-1]
            if n in ('warning', 'warn', 'error', 'critical'):
                t = []
                for a in list(d['args'] or ()) + list((d.get('kwargs') or {}).values()):
                    if isinstance(a, V):
                        t.append(repr(a))
                        if type(a) is Ref:
                            t.append('#%d' % a.oid)
                self.calls.append((n, ' '.join(t), d['st'].guards))


def run(rep):
    S = Session(rep, steps=40000000)
    S.g(TENHOU, 'to_commands')
    jobs = [('unknown ' + k, dropped, k) for k in unknown(S.I, S.state())]
    jobs += [('strict ' + n, understood, b) for n, b in c11.scenarios()]
    jobs += [('registration', registered, None)]
    jobs += [('checks of %s %s' % (s, p), checked, (s, p, t)) for s, p, t in props()]
    rep.parallel(jobs, lambda j: j[1](rep, S, j[0], j[2]))


def use(S, I, s, how, els, strict):
    r = record(S, s, els)
    kw = {} if strict is None else {'strict': Const(strict)}
    if how == 'to_commands':
        return I.call(s, S.g(TENHOU, how), [r], kw, None)
    if how == 'to_command_iter':
        return I.call(s, Bi('list'), [I.call(s, S.g(TENHOU, how), [r, Const(bool(strict))], {}, None)], {}, None)
    return I.call(s, Bi('list'), [I.call(s, S.g(TENHOU, 'to_command_records'), [r], dict(kw, raw=Const(how == 'raw records')), None)], {}, None)


def dropped(rep, S, name, kind):
    hows = ['to_commands', 'raw records', 'records'] + (['to_command_iter'] if S.has(TENHOU, 'to_command_iter') else [])
    where = S.loc_of(S.g('mahjong.record.universe.translator', 'CommandTranslator'))
    for how in hows:
        for pos in ('first', 'middle', 'last'):
            for strict in (True, False, None):
                if strict is None and how == 'to_command_iter':
                    continue
                label = '%s, %s, %s, strict=%s' % (name, pos, how, strict)
                w = Warned(S)

                def go_(I, s):
                    x = unknown(I, s)[kind]
                    a = [go(I, s, 4), taikyoku(I, s, 1)]
                    els = {'first': [x] + a, 'middle': a[:1] + [x] + a[1:], 'last': a + [x]}[pos]
                    return use(S, I, s, how, els, strict)
                o = S.run(go_, S.state(), intercepts=STUBS, listen=w)
                rep.count('unknown events')
                if strict:
                    rep.decide(True if o.dead else (False if not maybe(o) else None), label + ' raises', where, 'the event is passed over')
                else:
                    if o.dead:
                        rep.bad(label + ' goes on', where, 'raises %s' % [n for n, _ in S.exc(o)])
                        continue
                    rep.decide(bool(w.calls), label + ' warns', where, 'no warning function is called')


def maybe(o):
    return bool(o.raises)


def understood(rep, S, name, build):
    where = S.loc_of(S.g(TENHOU, 'to_commands'))
    box = {}

    def go_(I, s):
        evs = build(I, s)
        box['n'] = [c11.tag_of(S, s, e) for e, _ in evs]
        return I.call(s, S.g(TENHOU, 'to_commands'), [record(S, s, [e for e, _ in evs])], {'strict': TRUE}, None)
    o = S.run(go_, S.state(), intercepts=STUBS)
    rep.count('records')
    if o.dead:
        rep.bad(name + ': understood', where, 'raises %s' % [n for n, _ in S.exc(o)])
        return
    cmds = commands(S, o.st, o.value)
    if cmds is None:
        rep.undecided(name, where, 'commands not definite')
        return
    sure = {c.timestamp.v for c in cmds if not c.lits and type(c.timestamp) is Const}
    vague = any(c.lits or type(c.timestamp) is not Const for c in cmds)
    for i, t in enumerate(box['n']):
        rep.decide(True if i in sure else (None if vague or o.raises else False), '%s: event %d (%s) produces a command' % (name, i, t), where, 'nothing is produced')


def registered(rep, S, name, _):
    """a handler registered in any of the offered ways is used"""
    h = S.g('mahjong.record.universe.tenhou.event_definition', 'disconnected_command')
    ways = {
        'match_name': lambda I, s, t: I.call(s, I.call_method(s, t, 'match_name', [Const('ODD')], {}, None), [h], {}, None),
        'match_names': lambda I, s, t: I.call(s, I.call_method(s, t, 'match_names', [I.new_list(s, [Const('EVEN'), Const('ODD')])], {}, None), [h], {}, None),
        'match_attr': lambda I, s, t: I.call(s, I.call_method(s, t, 'match_attr', [Const('who')], {}, None), [h], {}, None),
        'match_both': lambda I, s, t: I.call(s, I.call_method(s, t, 'match_both', [], {'name': Const('ODD'), 'attr': Const('who')}, None), [h], {}, None),
        'default_event': lambda I, s, t: I.call_method(s, t, 'default_event', [h], {}, None),
    }
    cls = S.g(XM, 'TenhouCommandTranslator')
    for w, reg in ways.items():
        at = S.I.class_attr(S.base, cls, w)
        if at is None:
            continue
        for order in ('only', 'after another'):
            def go_(I, s):
                t = I.call(s, cls, [], {}, None)
                if order != 'only':
                    # a handler that yields nothing for this event comes first
                    I.call(s, I.call_method(s, t, 'match_name', [Const('ODD')], {}, None), [S.g('mahjong.record.universe.tenhou.event_definition', 'draw_command')], {}, None)
                r = reg(I, s, t)
                ev = wrap(S, s, [elem(I, s, 'ODD', who='2')])[0]
                return Tup([I.call(s, t, [ev], {'strict': TRUE}, None), r])
            o = S.run(go_, S.state(), intercepts=STUBS)
            label = 'handler registered with %s (%s) is used' % (w, order)
            if o.dead:
                rep.bad(label, S.loc_of(at), 'raises %s' % [n for n, _ in S.exc(o)])
                continue
            cmds = commands(S, o.st, o.value.items[0])
            rep.decide(None if cmds is None else len(cmds) == 1, label, S.loc_of(at), '%s commands' % (cmds and len(cmds)))
            rep.decide(True if o.st.simp(o.value.items[1]) == h else None, '%s gives the handler back (%s)' % (w, order), S.loc_of(at))


def checked(rep, S, name, x):
    scope, p, t = x
    cls = S.g(EXM, 'GameExecutor')
    where = S.loc_of(cls)
    cases = []
    for old, new in samples(t):
        if isinstance(old, V):
            old, new = 250, 300
        cases.append((old, new))
        cases.append((old, old))
        if isinstance(old, list) and len(old) > 1:
            cases.append((old, old[::-1]))
            cases.append((old, old[:-1]))
            cases.append((old + old[:1], old + old[-1:]))
    seen = []
    for old, new in cases:
        if (old, new) in seen:
            continue
        seen.append((old, new))
        same_ = sorted(map(repr, old)) == sorted(map(repr, new)) if t == 'tiles' else old == new
        if t in ('list', 'melds') and not same_ and sorted(map(repr, old)) == sorted(map(repr, new)):
            continue
        for strict in (True, False, None):
            for prior in (True, False):
                w = Warned(S)
                box = {}

                def go_(I, s):
                    ex = I.call(s, cls, [], {} if strict is None else {'strict_mode': Const(strict)}, None)
                    cs = [C(scope, p, 'REPLACE', old, 1, 1)] if prior else []
                    cs += [C(scope, p, 'ASSERT_EQUAL_OR_SET', new, 1, 2), C('game', 'wind', 'REPLACE', 1, 'all', 3)]
                    return I.call(s, Bi('list'), [I.call_method(s, ex, 'execute', [I.new_list(s, [c.make(S, s) for c in cs])], {}, None)], {}, None)
                o = S.run(go_, S.state(), listen=w)
                rep.count('checks executed')
                fails = prior and not same_
                label = '%s: %s checked against %s, strict=%s' % (name, old if prior else 'nothing', new, strict)
                if fails and strict:
                    rep.decide(True if o.dead else (None if o.raises else False), label + ' raises', where, 'the failed check is passed over')
                elif o.dead:
                    rep.bad(label + ' goes on', where, 'raises %s' % [n for n, _ in S.exc(o)])
                elif fails:
                    rep.decide(bool(w.calls), label + ' warns', where, 'no warning function is called')
                else:
                    sure = [c for c in w.calls if not c[2]]
                    rep.decide(True if not w.calls and not o.raises else (False if sure else None), label + ' is quiet', where, 'warns although the values agree')
