"""C17: the translator and the executor compute the same state for a command."""
from ..universe import *

RULE = ('Value numbering of both evaluators: for every property of every view, every update kind its type defines and previous values of every shape '
        '(none, empty, zero, equal, repeated), a sequence of commands is pushed through the interpreter that annotates commands and through the '
        'executor, as they stand in the source. After each command the value numbers of both states are compared with each other and with the '
        'definition of the update; other seats, other properties and equally named properties of other views must keep their value numbers.')

IN = ('mahjong.record.universe.interpreter', 'GameInterpreter')
EX = ('mahjong.record.universe.executor', 'GameExecutor')


def cases():
    for scope, p, t in props():
        for old, new in samples(t):
            for upd in UPDATES:
                for prior in (True, False):
                    w = after(t, upd, old if prior else None, new)
                    if w is None and not (upd == 'RESET_DEFAULT' and False):
                        continue
                    yield scope, p, t, upd, old if prior else None, new, w


def bystanders(scope, p):
    """commands that set values which the update must not touch, and a later question about them"""
    out = []
    if scope == 'player':
        out.append(C('player', p, 'REPLACE', ['9p', '9p'] if is_list(TYPES[scope][p]) else leaf('other_seat', 0, 9), 2, 1))
        if p != 'score':
            out.append((C('player', 'score', 'REPLACE', leaf('same_seat', 0, 9), 1, 1)))
        if p != 'round':
            out.append((C('player', 'round', 'REPLACE', leaf('same_seat_round', 0, 9), 1, 1)))
    if (scope, p) != ('game', 'round'):
        out.append((C('game', 'round', 'REPLACE', leaf('game_round', 0, 9), 'all', 1)))
    out.append((C('game', 'dealer', 'REPLACE', leaf('dealer', 0, 3), 'all', 1)) if p != 'dealer' else C('record', 'player_count', 'REPLACE', leaf('count', 0, 4), 'all', 1))
    return out


def run(rep):
    S = Session(rep, steps=20000000)
    S.g(*IN)
    S.g(*EX)
    groups = {}
    for c in cases():
        groups.setdefault((c[0], c[1]), []).append(c)
    rep.parallel([('%s %s' % k, v) for k, v in groups.items()], lambda x: [one(rep, S, *c) for c in x[1]])


def one(rep, S, scope, p, t, upd, old, new, want):
    name = '%s %s: %s %s on %s' % (scope, p, upd, new if upd != 'RESET_DEFAULT' else '', 'nothing' if old is None else old)
    rep.count('updates')
    by = bystanders(scope, p)
    cs = list(by)
    if old is not None:
        cs.append(C(scope, p, 'REPLACE', old, 1, 2))
    me = C(scope, p, upd, new if upd != 'RESET_DEFAULT' else None, 1, 3)
    cs.append(me)
    st = S.state()
    wi, we = S.loc_of(S.g(*IN)), S.loc_of(S.g(*EX))
    seq = [c.make(S, st) for c in cs]

    def interp(I, s):
        gi = I.call(s, S.g(*IN), [], {}, None)
        r = None
        for c in seq:
            r = I.call_method(s, gi, 'interpret', [c], {}, None)
        # questions about the bystanders: adding nothing states what is there
        q = [I.call_method(s, gi, 'interpret', [C(b.scope, b.prop, 'ADD', [] if is_list(TYPES[b.scope][b.prop]) else 0, b.sub, 4).make(S, s)], {}, None) for b in by if asks(b)]
        again = NONE
        if is_list(t) or is_number(t):
            again = I.call_method(s, gi, 'interpret', [C(scope, p, 'ADD', [] if is_list(t) else 0, 1, 5).make(S, s)], {}, None)
        return Tup([r, again] + q)

    def execu(I, s):
        ex = I.call(s, S.g(*EX), [], {}, None)
        return I.call(s, Bi('list'), [I.call_method(s, ex, 'execute', [I.new_list(s, seq)], {}, None)], {}, None)

    a = S.run(interp, st.copy())
    b = S.run(execu, st.copy())
    ri = re_ = None
    if a.dead:
        rep.bad(name + ' while translating', wi, 'raises %s' % [n for n, _ in S.exc(a)])
    else:
        xs = [a.st.simp(x) for x in a.value.items]
        ri = xs[0]
        rep.decide(same(S, a.st, ri, want), name + ' while translating', wi, 'state %s, defined %s' % (show(S, a.st, ri), want))
        if a.st.simp(xs[1]) != NONE:
            rep.decide(same(S, a.st, xs[1], want), name + ' kept while translating', wi, 'kept %s, defined %s' % (show(S, a.st, xs[1]), want))
        for x, y in zip(xs[2:], [c for c in by if asks(c)]):
            rep.decide(same(S, a.st, x, y.value), name + ' leaves %s %s of %s while translating' % (y.scope, y.prop, y.sub), wi, 'now %s' % show(S, a.st, x))
    if b.dead:
        rep.bad(name + ' in the executor', we, 'raises %s' % [n for n, _ in S.exc(b)])
        return
    es = S.I.entries(b.st, b.value)
    if es is None or len(es) != len(cs) or any(e.g or e.many for e in es):
        rep.decide(None if es is None or any(e.g or e.many for e in es) else False, name + ' yields a state per command', we, '%s states' % (es and len(es)))
        return
    fl = flat(S, b.st, es[-1].v)
    if fl is None:
        rep.undecided(name + ' in the executor', we, 'state not definite')
        return
    got = find(fl, scope, 1, p)
    rep.decide(len(got) == 1 and same(S, b.st, got[0], want), name + ' in the executor', we, 'state %s, defined %s' % ([show(S, b.st, x) for x in got], want))
    for y in by:
        v = find(fl, y.scope, y.sub, y.prop)
        rep.decide(len(v) == 1 and same(S, b.st, v[0], y.value), name + ' leaves %s %s of %s in the executor' % (y.scope, y.prop, y.sub), we,
                   'now %s' % [show(S, b.st, x) for x in v])
    others = [k for k in fl if k[0] != 'global' and not any(k[-1] == (VIEWS[y.scope], y.prop) for y in by + [me])]
    rep.decide(not others, name + ' sets nothing else in the executor', we, 'also set: %s' % others)


def asks(b):
    t = TYPES[b.scope][b.prop]
    return is_number(t) or is_list(t)


def show(S, st, v):
    if type(v) is Ref:
        es = S.I.entries(st, v)
        return [show(S, st, st.simp(e.v)) for e in es] if es is not None else '?'
    return v
