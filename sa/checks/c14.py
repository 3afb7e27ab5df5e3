"""C14: converting one record is independent of every other conversion."""
from ..universe import *
from ..waiting import drain

RULE = ('Relational value numbering: each of several abstract records (symbolic numbers, equal tags and positions, different leaves) is converted '
        'alone, after another one, twice, after a conversion that failed or was abandoned half way, and with another conversion running completely '
        'between any two of its commands. Every field of every command - state included - must have the same value number as when it was '
        'converted alone, and a conversion that fails alone must fail likewise.')
TENHOU = 'mahjong.record.universe.tenhou'


def dealt(e, st, base):
    """the hands of the deal made constant, so that removing from them is decided"""
    d = st.w(st.get(e.oid).attrs['attrib'].oid)
    for p in range(4):
        k = Const('hai%d' % p)
        if k in d.data and d.data[k].v != Const(''):
            d.data[k] = Entry(Const('%d,%d' % (base + 4 * p, base + p)))
    return e


def rec_a(I, st):
    return [go(I, st, 4), un(I, st, 4, tag='A'), taikyoku(I, st, 1), dealt(init(I, st, 1, 4, tag='A', hands=2), st, 4), draw(I, st, 1, leaf('drawA', 0, 135)),
            discard(I, st, 1, 5), reach(I, st, 2, 1), reach(I, st, 2, 2), dora(I, st, leaf('doraA', 0, 135)),
            ryuukyoku(I, st, 4, 'A', last=True)]


def rec_b(I, st):
    return [go(I, st, 3), un(I, st, 3, tag='B'), taikyoku(I, st, 2), dealt(init(I, st, 2, 3, tag='B', hands=2), st, 80), draw(I, st, 0, leaf('drawB', 0, 135)),
            draw(I, st, 1, leaf('drawB2', 0, 135)), dora(I, st, leaf('doraB', 0, 135)), reach(I, st, 1, 2), bye(I, st, 0), agari(I, st, 2, 2, 3, 'B', last=True)]


def rec_c(I, st):
    """the same events as a, another game"""
    return [go(I, st, 4), un(I, st, 4, tag='C'), taikyoku(I, st, 1), dealt(init(I, st, 1, 4, tag='C', hands=2), st, 40), draw(I, st, 1, leaf('drawC', 0, 135)),
            discard(I, st, 1, 41), reach(I, st, 2, 1), reach(I, st, 2, 2), dora(I, st, leaf('doraC', 0, 135)),
            ryuukyoku(I, st, 4, 'C', last=True)]


def rec_d(I, st):
    """cut: starts in the middle, cannot be converted alone"""
    return [go(I, st, 4), reach(I, st, 2, 2)]


def rec_e(I, st):
    return [go(I, st, 4), discard(I, st, 1, leaf('discE', 0, 135))]


def rec_f(I, st):
    return [go(I, st, 4), dora(I, st, leaf('doraF', 0, 135))]


def rec_g(I, st):
    """no game type: the number of players is unknown"""
    return [taikyoku(I, st, 2)]


def rec_h(I, st):
    return [init(I, st, 0, 4, tag='H', hands=1)]


def rec_i(I, st):
    """an event nobody understands, for strict conversions"""
    return [go(I, st, 3), elem(I, st, 'UNHEARD', of='1'), bye(I, st, 2)]


RECS = {'a': rec_a, 'b': rec_b, 'c': rec_c, 'd': rec_d, 'e': rec_e, 'f': rec_f, 'g': rec_g, 'h': rec_h, 'i': rec_i}


def convert(S, I, s, r, strict=False, fn='to_commands'):
    return I.call(s, S.g(TENHOU, fn), [r], {'strict': Const(strict)}, None)


def trial(S, I, s, fn):
    """fn(s) with its failure caught: (value or None, names of exceptions)"""
    sink = []
    outer, I.sinks = I.sinks, (sink,)
    q = s.copy()
    try:
        r = fn(q)
        s.become(q)
        return r, [], True
    except PathDead:
        if sink:
            # the state left behind by the failure
            s.become(sink[0][0])
        return None, sorted(str(I.exc_name(q_, e)) for q_, e in sink), False
    finally:
        I.sinks = outer


def result(S, I, s, fn):
    r, names, fine = trial(S, I, s, fn)
    if not fine:
        return ('failed',) + tuple(n.split('(')[0] for n in names)
    es = I.entries(s, r)
    if es is None or any(e.g or e.many for e in es):
        raise Unknown('list of commands')
    return ('commands',) + tuple(frozen_cmd(S, s, e.v) for e in es)


def run(rep):
    S = Session(rep, steps=40000000)
    S.g(TENHOU, 'to_commands')
    it = 'to_command_iter' if S.has(TENHOU, 'to_command_iter') else None
    jobs = []
    for x in RECS:
        for first in RECS:
            jobs.append(('record %s after record %s' % (x, first), x, first, 'after'))
        for first in 'abc':
            jobs.append(('record %s after an abandoned conversion of %s' % (x, first), x, first, 'abandoned'))
        jobs.append(('record %s after a strict failure' % x, x, 'i', 'strict'))
    if it:
        for x in 'abc':
            for y in RECS:
                jobs.append(('record %s with conversions of %s in between' % (x, y), x, y, 'between'))
    rep.parallel(jobs, lambda j: one(rep, S, *j))


def one(rep, S, name, x, y, how):
    st = S.state()
    where = S.loc_of(S.g(TENHOU, 'to_commands'))
    made = {}

    def build(I, q):
        for k in sorted({x, y}):
            made[k] = record(S, q, RECS[k](I, q))
        return NONE
    st = S.run(build, st, intercepts=STUBS).st
    rep.count('conversion orders')
    box = {}

    def alone(I, s):
        box['alone'] = result(S, I, s, lambda q: convert(S, I, q, made[x]))
        return NONE

    def other(I, s):
        if how == 'after':
            trial(S, I, s, lambda q: convert(S, I, q, made[y]))
            box['other'] = result(S, I, s, lambda q: convert(S, I, q, made[x]))
        elif how == 'strict':
            trial(S, I, s, lambda q: convert(S, I, q, made[y], True))
            box['other'] = result(S, I, s, lambda q: convert(S, I, q, made[x]))
        elif how == 'abandoned':
            fn = 'to_command_iter' if S.has(TENHOU, 'to_command_iter') else 'to_command_records'

            def part(q):
                g = convert(S, I, q, made[y], False, fn)
                return I.call(q, Bi('next'), [g], {}, None)
            trial(S, I, s, part)
            box['other'] = result(S, I, s, lambda q: convert(S, I, q, made[x]))
        else:
            inner = []

            def each(q, v):
                r = frozen_cmd(S, q, v)
                box['list'].append(r)
                if len(box['list']) % 7 == 3:
                    inner.append(result(S, I, q, lambda p: convert(S, I, p, made[y])))
            box['list'] = []
            g = convert(S, I, s, made[x], False, 'to_command_iter')
            drain(I, s, g, each)
            box['other'] = ('commands',) + tuple(box['list'])
            box['inner'] = inner
        return NONE

    S.run(alone, st.copy(), intercepts=STUBS)
    S.run(other, st.copy(), intercepts=STUBS)
    if 'alone' not in box or 'other' not in box:
        rep.undecided(name, where, 'not converted')
        return
    compare(rep, name, where, box['alone'], box['other'], st)
    if how == 'between':
        y_alone = {}

        def alone_y(I, s):
            y_alone['r'] = result(S, I, s, lambda q: convert(S, I, q, made[y]))
            return NONE
        S.run(alone_y, st.copy(), intercepts=STUBS)
        for i, r in enumerate(box['inner']):
            compare(rep, 'record %s converted in the middle of record %s (%d)' % (y, x, i), where, y_alone['r'], r, st)


def compare(rep, name, where, a, b, st):
    if a[0] != b[0] or a[0] == 'failed':
        rep.decide(a == b, name, where, 'alone: %s; here: %s' % (a if a[0] == 'failed' else '%d commands' % (len(a) - 1), b if b[0] == 'failed' else '%d commands' % (len(b) - 1)))
        return
    if len(a) != len(b):
        rep.bad(name, where, '%d commands, alone %d' % (len(b) - 1, len(a) - 1))
        return
    rep.count('commands compared', len(a) - 1)
    worst = True
    for i, (x, y) in enumerate(zip(a[1:], b[1:])):
        for f, p, q in zip(FIELDS, x[1:], y[1:]):
            r = same_frozen(p, q, st.guards)
            if r is False:
                rep.bad(name, where, 'command %d (%s of %s): %s is %s, alone %s' % (i, describe(x[4]), describe(x[3]), f, describe(q), describe(p)))
                return
            if r is None:
                worst = None
    rep.decide(worst, name, where, 'values not comparable')
