"""C08: feeding an event to a record tracker never alters the tracker."""
from ..track import *

RULE = ('Abstract interpretation of the trackers on branching event sequences with symbolic tile numbers: from each situation a tracker is advanced by '
        'one event, the new and the old tracker are advanced further by events of every kind, and then every earlier tracker, and every value '
        'it had reported before, still has the members it had. Trackers created separately report no common changeable object, and following '
        'one does not change what the other reports.')

ASSUMPTIONS = ['call codes are one per kind of call; tile numbers of deals, draws, discards and indicators are symbolic, and number 0 is tried too']


def run(rep):
    S = Session(rep)
    jobs = []
    for name in TRACKERS:
        for me, players in ((1, 4), (0, 4), (0, 3)):
            for cname, before, events in chains(me, players):
                nxt = (me + 1) % players
                seen = [e for e in events if e[1] in (None, me, nxt) or e[0] == 'init']
                for e in seen:
                    if (me, players) != (1, 4) and (e[1] == nxt or e[0] in ('bye', 'reach', 'taikyoku', 'agari')):
                        continue
                    jobs.append((name, me, players, cname, before, e))
    rep.parallel(jobs, lambda j: branch(S, rep, *j), limit=200)
    rep.parallel([(n, m) for n in TRACKERS for m in (0, 1)], lambda j: separate(S, rep, *j), limit=100)
    together(S, rep)


def where(S, name):
    c = S.g(STATE, TRACKERS[name][0])
    return S.loc_of(S.I.class_attr(S.base, c, 'scan'))


def model_of(me, players, seq):
    m = Model(me, players)
    for x in seq:
        m.step(x)
    return m


def later(me, players):
    c = [('draw', me, leaf('inlater', 0, 135)), ('discard', me, leaf('outlater', 0, 135)), ('dora', None, leaf('outdoralater', 0, 135)), ('init', me, 'z'),
         ('call', me, 'pon'), ('call', me, 'added'), ('call', me, 'closed kan'), ('call', me, 'north')]
    return c


def read(I, s, t):
    return I.get_attr(s, t, 'value', None)


def branch(S, rep, name, me, players, cname, before, e):
    at = where(S, name)
    head = '%s of seat %d (%d players) %s, then %s' % (name, me, players, cname, show(e))
    for f in later(me, players)[:None if e[1] in (None, me) and (me, players) == (1, 4) else 4]:
        n = '%s and %s' % (head, show(f))
        with rep.group(n):
            steps = []

            def go(I, s):
                p = player(I, S, s, me)
                t = tracker(I, S, s, name, p, players)
                evs = wrap(S, s, [build(I, s, x, players) for x in before + [e, f]])
                steps.append((t, read(I, s, t), []))
                for i, x in enumerate(evs):
                    t = I.call_method(s, t, 'scan', [x], {}, None)
                    steps.append((t, read(I, s, t), (before + [e, f])[:i + 1]))
                # the situation before e goes on differently
                old = steps[len(before)][0]
                t = I.call_method(s, old, 'scan', [evs[-1]], {}, None)
                steps.append((t, read(I, s, t), before + [f]))
                return t
            fx = Effects(S)
            o = S.run(go, S.state(), listen=[fx], intercepts=STUBS)
            rep.count('branching event sequences')
            if o.dead:
                # an event nothing can follow is decided by C09
                rep.undecided(n, at, 'no path through')
                continue
            last = steps[max(len(before) - 1, 0):]
            for t, v, seq in last:
                kept(S, rep, name, n, o.st, t, v, model_of(me, players, seq), at, fx, len(seq), before, e, f, seq)


def kept(S, rep, name, n, st, t, v, model, at, fx, k, before, e, f, seq):
    tag = '%d events in%s' % (k, ' (other branch)' if seq == before + [f] and e != f else '')
    verdict(S, rep, name, '%s: value reported %s' % (n, tag), st, v, model, at, fx)

    def again(I, s):
        return read(I, s, t)
    q = S.run(again, st.copy(), intercepts=STUBS)
    if q.dead:
        rep.undecided('%s: tracker %s' % (n, tag), at, 'value cannot be read')
        return
    verdict(S, rep, name, '%s: tracker %s' % (n, tag), q.st, q.value, model, at, fx)


def verdict(S, rep, name, n, st, value, model, at, fx):
    res, why = True, ''
    for g, v in alts(st, value):
        if g and feasible(g) is False:
            continue
        r, w = TRACKERS[name][1](S, st, v, model)
        if r is False and g and feasible(g) is not True:
            r = None
        if r is False:
            res, why = False, w
            if type(v) is Ref:
                for x in [v.oid] + reachable(st, [v]):
                    l, d = fx.where(x)
                    if l:
                        at, why = l, '%s (%s)' % (w, d)
                        break
            break
        if r is None:
            res, why = None, w
    rep.decide(res, n, at, why)


CHANGEABLE = ('list', 'set', 'dict')


def changeable(S, st, v):
    out = set()
    for x in reachable(st, [v]):
        k = m_coll.kind_of(S.I, st, Ref(x)) or st.get(x).kind
        if k in CHANGEABLE:
            out.add(x)
    return out


def separate(S, rep, name, me):
    at = where(S, name)
    other = (me + 1) % 4
    for k, seq in enumerate(([], [('init', me, '')], [('init', me, ''), ('draw', me, 0), ('call', me, 'pon')])):
        n = 'two trackers of %s, seats %d and %d, after %d events of the first' % (name, me, other, len(seq))
        with rep.group(n):
            box = {}

            def go(I, s):
                a = tracker(I, S, s, name, player(I, S, s, me), 4)
                b = tracker(I, S, s, name, player(I, S, s, me), 4)
                c = tracker(I, S, s, name, player(I, S, s, other), 4)
                for x in wrap(S, s, [build(I, s, y) for y in seq]):
                    a = I.call_method(s, a, 'scan', [x], {}, None)
                d = tracker(I, S, s, name, player(I, S, s, me), 4)
                box.update(a=a, b=b, c=c, d=d)
                return Tup(tuple(read(I, s, x) for x in (a, b, c, d)))
            fx = Effects(S)
            o = S.run(go, S.state(), listen=[fx], intercepts=STUBS)
            if o.dead:
                rep.undecided(n, at, 'no path through')
                continue
            vs = list(o.value.items)
            verdict(S, rep, name, n + ': first', o.st, vs[0], model_of(me, 4, seq), at, fx)
            for t, v in zip(('one created before', 'one of another seat', 'one created later'), vs[1:]):
                verdict(S, rep, name, '%s: %s' % (n, t), o.st, v, model_of(me, 4, []), at, fx)
            common = set()
            for i in range(4):
                for j in range(i):
                    common |= changeable(S, o.st, vs[i]) & changeable(S, o.st, vs[j])
            rep.decide(not common, n + ': no common object', S.where_class(S.g(STATE, TRACKERS[name][0])),
                       'trackers created separately report the same changeable object')


def together(S, rep):
    """a collection of trackers leaves its members as they were"""
    me = 1
    c = S.g(STATE, 'GameStateCollection')
    at = S.loc_of(S.I.class_attr(S.base, c, 'scan'))
    names = {n.replace(' ', '_'): n for n in TRACKERS}
    seq = [('init', 0, ''), ('draw', me, leaf('in', 0, 135)), ('discard', me, leaf('out', 0, 135)), ('call', me, 'pon'), ('dora', None, leaf('outdora1', 0, 135)),
           ('call', me, 'added'), ('init', 2, 'n')]
    for k in range(len(seq)):
        n = 'collection of trackers after %d events' % (k + 1)
        with rep.group(n):
            box = []

            def go(I, s):
                p = player(I, S, s, me)
                members = {f: tracker(I, S, s, x, p, 4) for f, x in names.items()}
                t = I.call(s, c, [], members, None)
                evs = wrap(S, s, [build(I, s, x) for x in seq[:k + 1]])
                for x in evs[:-1]:
                    t = I.call_method(s, t, 'scan', [x], {}, None)
                v = read(I, s, t)
                box.append(([I.get_attr(s, v, f, None) for f in names], t))
                I.call_method(s, t, 'scan', [evs[-1]], {}, None)
                v = read(I, s, t)
                return Tup(tuple(I.get_attr(s, v, f, None) for f in names))
            fx = Effects(S)
            o = S.run(go, S.state(), listen=[fx], intercepts=STUBS)
            if o.dead:
                rep.undecided(n, at, 'no path through')
                continue
            m = model_of(me, 4, seq[:k])

            def values(ts, tag):
                def rd(I, s):
                    return Tup(tuple(read(I, s, t) for t in ts))
                q = S.run(rd, o.st.copy(), intercepts=STUBS)
                if q.dead:
                    rep.undecided('%s: %s' % (n, tag), at, 'value cannot be read')
                    return
                for x, v in zip(names.values(), q.value.items):
                    verdict(S, rep, x, '%s: %s, %s' % (n, x, tag), q.st, v, m, at, fx)
            values(box[0][0], 'member kept')
            values(list(o.value.items), 'member read again')
