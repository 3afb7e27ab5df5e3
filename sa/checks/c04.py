"""C04: the four-copies option is honoured throughout the waiting calculators."""
from ..lib import *
from ..recs import *
from ..effects import *
from ..waiting import *
from ..state import Old, OLD
from .c02 import marked

RULE = ('Dependence and must-pass analysis by abstract interpretation (path-insensitive after merges). The number four in the container code is '
        'replaced by a symbol when the source is loaded. Option off: no answer may contain a value computed from it or be selected by a condition '
        'that tests it, and an answer must exist and must not be the same for every hand. Option on: every way a search accepts a hand '
        '(has_win or match answering yes for a hand that is not the one asked about) must lie behind a decision that tested it before the '
        'acceptance leaves the query. Option symbolic: every call that binds the option in a callee binds the option of the query.')

ASSUMPTIONS = ['searches are entered at most twice on one path', 'the limit is written as the number 4 in mahjong.container or mahjong.tile']

OPTION = 'ignore_4counts'
FOUR = leaf('FOUR', 1, 4)


def run(rep):
    S0 = Session(rep)
    mods = [m for m in S0.I.modules if m.startswith('mahjong.container') or m.startswith('mahjong.tile')]
    S = Session(rep, steps=6000000, literals={(m, int, 4): FOUR for m in mods})
    jobs = []
    n = 0
    for cname, cref, methods in calculators(S):
        for m, params in methods:
            if OPTION not in params:
                continue
            n += 1
            for pname in SMALL:
                for kind, fn in (('off', off), ('on', on), ('symbolic', forwarded)):
                    if kind != 'off' and pname != SMALL[0]:
                        continue
                    jobs.append(('%s.%s, %s, option %s' % (cname, m, pname, kind), fn, cref, m, pname))
    if not n:
        raise Anchor('no waiting query takes the option %s' % OPTION)
    rep.parallel(jobs, lambda j: j[1](S, rep, *j))


def prepare(S, cref, m, pname):
    w = world(S, pname, hi=5)
    obj = S.new(w.st, cref, w.pattern)
    return w, obj, S.loc_of(S.I.class_attr(S.base, cref, m))


def ask(S, w, obj, m, flag, watch, hooks=None):
    OLD[0] = Old({'FOUR'}, -1)
    try:
        return S.run(lambda I, s: drain(I, s, I.call_method(s, obj, m, [w.hand], {OPTION: flag}, None)),
                     w.st, listen=watch, intercepts=hooks, rec=2, flat=True)
    finally:
        OLD[0] = None


def off(S, rep, nm, fn, cref, m, pname):
    w, obj, at = prepare(S, cref, m, pname)
    old = Old({'FOUR'}, -1)
    o = ask(S, w, obj, m, FALSE, None)
    rep.count('queries interpreted with the option off')
    what = '%s: the limit has no influence' % nm
    if o.dead:
        return rep.bad('%s: there is an answer' % nm, at, 'no path reaches an answer') if not S.exc(o) else rep.undecided(nm, at, 'no path')
    r = marked(old, o.st, o.value)
    rep.decide(r is None, what, at, 'the answer contains %s' % str(r)[:160])
    a = alts(o.st, o.value)
    rep.decide(len(a) > 1 or type(a[0][1]) is not Const, '%s: the answer depends on the hand' % nm, at, 'the answer is always %r' % (a[0][1],))
    rep.decide(not any(x == NONE for _, x in a), '%s: the answer is an answer' % nm, at, 'None may be returned')


def on(S, rep, nm, fn, cref, m, pname):
    w, obj, at = prepare(S, cref, m, pname)
    old = Old({'FOUR'}, -1)
    pending = {}
    bad = {}
    stats = [0, 0]
    first = []

    def mine(fr):
        return fr is not None and (fr.modname or '').startswith(R)

    def limited(s):
        return any(old(c) for c, _ in s.guards)

    def watch(k, d):
        st = S.I.stack
        if k == 'call':
            if not first and d['qual'].endswith('.' + m):
                first.append(True)
            if d['qual'].endswith('.match'):
                h = d['bound'].get('hand')
                if h == w.hand and st:
                    own[id(d['node'])] = True
                else:
                    own.pop(id(d['node']), None)
        elif k == 'return':
            q = d['qual']
            if (q.endswith('.has_win') or q.endswith('.match')) and st and mine(st[-1]) and d['value'] != FALSE:
                stats[0] += 1
                if q.endswith('.match') and id(d['node']) in own:
                    return
                pending.setdefault(id(st[-1]), (st[-1], d['node']))
        elif k == 'yield':
            p = pending.get(id(d['fr']))
            if p is not None:
                stats[1] += 1
                if not limited(d['st']) and not old(d['value']):
                    bad.setdefault(S.loc(d['node']), p[1])
        elif k == 'returning':
            p = pending.get(id(d['fr']))
            if p is None or d['value'] in (NONE, FALSE):
                return
            stats[1] += 1
            if limited(d['st']) or marked(old, d['st'], d['value']) is not None:
                return
            fr = d['fr']
            if fr.fd is not None and fr.fd.is_gen:
                return
            out = [f for f in st if f is not fr and mine(f)]
            if out and fr.fd.qual in queries:
                nested.setdefault(fr.fd.qual, p[1])
            elif out:
                pending.setdefault(id(out[-1]), (out[-1], p[1]))
            else:
                bad.setdefault(S.loc(d['node']), p[1])
    own, nested = {}, {}
    queries = {S.base.get(S.I.class_attr(S.base, cref, x).oid).data.qual for x, _ in public(S, cref)}
    o = ask(S, w, obj, m, TRUE, watch)
    rep.count('acceptances seen with the option on', stats[0])
    what = '%s: every accepted hand has passed the limit' % nm
    if nested:
        w, obj, at = prepare(S, cref, m, pname)
        k = [0]

        def answer(I, s, f, args, kwargs, node):
            k[0] += 1
            return leaf('W%d' % k[0], -1, 13)
        o = ask(S, w, obj, m, TRUE, None, hooks={q: answer for q in nested})
        es = None if o.dead or type(o.value) is not Ref else S.I.set_elems(o.st, o.st.get(o.value.oid)) if o.st.get(o.value.oid).kind == 'set' else None
        if es is not None and any(not any(old(c) for c, _ in e.g) for e in es):
            bad[at.split(' ')[0]] = list(nested.values())[0]
    if bad:
        for l, n in bad.items():
            rep.bad(what, l, 'the hand accepted at %s leaves the query without a decision on the limit' % S.loc(n))
    elif not stats[0]:
        rep.undecided(what, at, 'no acceptance was seen')
    else:
        rep.ok(what, at)


def forwarded(S, rep, nm, fn, cref, m, pname):
    w, obj, at = prepare(S, cref, m, pname)
    flag = Term('leaf', ('OPTION',), 'bool')
    bad = {}
    n = [0]

    def watch(k, d):
        if k != 'call' or OPTION not in d['bound'] or not d['stack']:
            return
        v = d['st'].simp(d['bound'][OPTION])
        want = d['st'].resolve(flag)
        n[0] += 1
        if v != want and v != flag and type(v) is Const:
            bad[S.loc(d['node'])] = '%s is called with the option %r' % (d['qual'].split(':')[-1], v)
    o = ask(S, w, obj, m, flag, watch)
    rep.count('calls that pass the option', n[0])
    for l, t in bad.items():
        rep.bad('%s: every step gets the option of the query' % nm, l, t)
    if not bad:
        rep.ok('%s: every step gets the option of the query' % nm, at)
