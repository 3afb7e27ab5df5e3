"""C09: record trackers follow exactly the events that concern them."""
from ..track import *

RULE = ('Abstract interpretation of the trackers (hand, melds, discards, dora indicators, unseen tiles) on event sequences with symbolic tile numbers: '
        'from the situation before the first deal, after a deal, in mid-game and with several melds, one event of every kind by every seat is '
        'scanned, and a new deal after it; the reported sets are compared, member by member as conditions over the tile numbers, with the '
        'sets the rules of the record give, for every own seat and for three and four players. Following a list of events at once (with_events, '
        'with_key_events, passed_events, a collection of trackers) is compared with following them one by one.')

ASSUMPTIONS = ['call codes are one per kind of call (their decoding in general is decided by C18); the tile numbers of deals, draws, discards and '
               'indicators are symbolic, and number 0 is tried as a constant too']


def run(rep):
    S = Session(rep)
    jobs = []
    for players in (4, 3):
        for me in range(players):
            for name in TRACKERS:
                if name in ('dora indicators', 'unseen tiles') and me:
                    continue
                for chain in chains(me, players):
                    jobs.append((name, me, players, chain))
    rep.parallel(jobs, lambda j: follow(S, rep, *j), limit=200)
    together(S, rep)


def where(S, name):
    c = S.g(STATE, TRACKERS[name][0])
    return S.loc_of(S.I.class_attr(S.base, c, 'scan'))


def start(S, name, me, players, before):
    st = S.state()
    box = {}

    def go(I, s):
        p = player(I, S, s, me)
        t = tracker(I, S, s, name, p, players)
        for e in wrap(S, s, [build(I, s, x, players) for x in before]):
            t = I.call_method(s, t, 'scan', [e], {}, None)
        box['p'] = p
        return t
    o = S.run(go, st, intercepts=STUBS)
    return o, box


def follow(S, rep, name, me, players, chain):
    cname, before, events = chain
    at = where(S, name)
    o, box = start(S, name, me, players, before)
    head = '%s of seat %d (%d players) %s' % (name, me, players, cname)
    if o.dead:
        return give_up(S, rep, o, head, at, S.base)
    model = Model(me, players)
    for x in before:
        model.step(x)
    check(S, rep, name, head, o.st, o.value, model, at)
    for e in events:
        for again in (False, True):
            if again and (e[0] == 'init' or not before):
                continue
            st = o.st.copy()
            seq = [e] + ([('init', me, 'c')] if again else [])

            def go(I, s):
                t = o.value
                for x in wrap(S, s, [build(I, s, y, players) for y in seq]):
                    t = I.call_method(s, t, 'scan', [x], {}, None)
                return t
            m = Model(me, players)
            for x in before + seq:
                m.step(x)
            n = '%s, then %s' % (head, show(e)) + (' and a new deal' if again else '')
            with rep.group(n):
                q = S.run(go, st, intercepts=STUBS)
                rep.count('event sequences followed')
                if q.dead:
                    give_up(S, rep, q, n, at, o.st)
                    continue
                check(S, rep, name, n, q.st, q.value, m, at)


def give_up(S, rep, o, n, at, base):
    """an event no tracker can follow"""
    names = sorted({str(x) for x, _ in S.exc(o)})
    rep.decide(False if names else None, n, at, 'scanning always raises %s' % ', '.join(names) if names else 'no path through')


def check(S, rep, name, n, st, t, model, at):
    def go(I, s):
        return I.get_attr(s, t, 'value', None)
    o = S.run(go, st.copy(), intercepts=STUBS)
    if o.dead:
        rep.undecided(n, at, 'value cannot be read')
        return
    res, why = True, ''
    for g, v in alts(o.st, o.value):
        if g and feasible(g) is False:
            continue
        r, w = TRACKERS[name][1](S, o.st, v, model)
        if r is False and g and feasible(g) is not True:
            r = None
        if r is False:
            res, why = False, w
            break
        if r is None:
            res, why = None, w
    rep.decide(res, n, at, why)


def together(S, rep):
    """following a list of events at once"""
    me, nxt = 1, 2
    seq = [('init', 0, ''), ('draw', me, leaf('in', 0, 135)), ('discard', me, leaf('in', 0, 135)), ('draw', nxt, 40), ('discard', nxt, leaf('out', 0, 135)),
           ('call', me, 'pon'), ('discard', me, leaf('out2', 0, 135)), ('dora', None, leaf('outdora1', 0, 135)), ('reach', nxt, 1), ('draw', me, leaf('in2', 0, 135)),
           ('call', me, 'added')]
    jobs = [(way, name, cut) for way in ('with_events', 'passed_events', 'with_key_events') for name in TRACKERS for cut in (0, 1, 3, 6)]
    jobs = [(seq,) + j for j in jobs]
    two = seq[:6] + [('init', nxt, 'c'), ('draw', me, leaf('in3', 0, 135))]
    jobs += [(two, way, name, cut) for way in ('passed_events', 'with_key_events') for name in TRACKERS for cut in (1, 6)]
    rep.parallel(jobs, lambda j: at_once(S, rep, me, *j), limit=60)
    collection(S, rep, me, seq)


def at_once(S, rep, me, seq, way, name, cut):
    gs = S.g(STATE, 'GameState')
    at = S.loc_of(S.I.class_attr(S.base, gs, way)) if type(S.I.class_attr(S.base, gs, way)) is Ref else S.where_class(gs)
    n = '%s of %s, %d events after %d%s' % (way, name, len(seq) - cut, cut, ' with a second deal' if any(x[0] == 'init' for x in seq[1:]) else '')
    o, box = start(S, name, me, 4, seq[:cut])
    if o.dead:
        rep.undecided(n, at, 'no path through')
        return

    def go(I, s):
        evs = I.new_list(s, wrap(S, s, [build(I, s, y) for y in seq[cut:]]))
        v = I.call_method(s, o.value, way, [evs], {}, None)
        return v if way == 'passed_events' else I.call(s, Bi('list'), [v], {}, None)
    q = S.run(go, o.st.copy(), intercepts=STUBS)
    if q.dead:
        give_up(S, rep, q, n, at, o.st)
    elif way == 'passed_events':
        check(S, rep, name, n, q.st, q.value, path(me, seq), at)
    else:
        es = elements(S, q.st, q.value)
        if es is None or any(g or many for g, _, many in es):
            rep.undecided(n, at, 'situations unknown')
        elif way == 'with_events':
            rep.decide(len(es) == len(seq) - cut, n + ': one situation per event', at, '%d situations' % len(es))
            for i, (_, t, _) in enumerate(es[:len(seq) - cut]):
                check(S, rep, name, '%s: situation %d' % (n, i + 1), q.st, t, path(me, seq[:cut + i + 1]), at)
        elif es:
            check(S, rep, name, n + ': last situation', q.st, es[-1][1], path(me, seq), at)


def path(me, seq, players=4):
    m = Model(me, players)
    for x in seq:
        m.step(x)
    return m


def collection(S, rep, me, seq):
    """several trackers followed together report what each reports alone"""
    c = S.g(STATE, 'GameStateCollection')
    at = S.loc_of(S.I.class_attr(S.base, c, 'scan'))
    names = {n.replace(' ', '_'): n for n in TRACKERS}
    for k in range(1, len(seq) + 1):
        n = 'collection of trackers after %d events' % k
        with rep.group(n):
            def go(I, s):
                p = player(I, S, s, me)
                t = I.call(s, c, [], {f: tracker(I, S, s, x, p, 4) for f, x in names.items()}, None)
                for e in wrap(S, s, [build(I, s, x) for x in seq[:k]]):
                    t = I.call_method(s, t, 'scan', [e], {}, None)
                v = I.get_attr(s, t, 'value', None)
                return Tup(tuple(I.get_attr(s, v, f, None) for f in names))
            o = S.run(go, S.state(), intercepts=STUBS)
            if o.dead:
                give_up(S, rep, o, n, at, S.base)
                continue
            for (f, x), t in zip(names.items(), o.value.items):
                check(S, rep, x, '%s: %s' % (n, x), o.st, t, path(me, seq[:k]), at)
