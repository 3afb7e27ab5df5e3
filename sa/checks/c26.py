"""C26: reports and simulations never divide by zero."""
from ..reports import *
from ..programs import external_names

RULE = ('Abstract interpretation with an event at every quotient: reports are interpreted over scripted games in which the searches find useful tiles, '
        'none at all, none left unseen, or none for the best candidate only; the simulation is interpreted for hands with many and few different '
        'tiles, none to many draws, one and more experiments, without, with some and with only wins. No divisor met may be zero; a divisor '
        'summed from an array is judged by the values stored in the array.')

ASSUMPTIONS = ['the sum of the eigenvector of a stochastic matrix for its eigenvalue nearest one is not zero (numerical, not decided here)',
               'the unseen copies of a tile are at most those of the deck']

DEMO = 'mahjong.win_rate_demo'
NONE_USEFUL = lambda kind, hand: []
PLANS = {
    'every search finds something': (step_of, useful_of),
    'no useful tile': (step_of, NONE_USEFUL),
    'no useful tile, all ready': (lambda k, h: 0, NONE_USEFUL),
    'no useful tile, same step for all': (lambda k, h: 2, NONE_USEFUL),
    'useful tiles all in the own hand': (step_of, lambda k, h: [t for t, n in sorted(h.items()) if n == 4]),
    'no useful tile for the best': (step_of, lambda k, h: [] if step_of(k, h) == 0 else ['1m', '7z']),
    'useful tiles for the best only': (step_of, lambda k, h: ['2p', '7z'] if step_of(k, h) == 0 else []),
    'one candidate ahead': (lambda k, h: 0 if total(h) % 5 == 0 else 5, lambda k, h: ['3s'] if total(h) % 2 else []),
}


class Quotients:
    def __init__(self, S):
        self.S, self.met, self.stores = S, [], []

    def __call__(self, k, d):
        if k == 'division':
            self.met.append((d['op'], d['num'], d['den'], d['node'], d['st'], len(self.stores)))
        elif k == 'setitem_ext':
            self.stores.append(d)


def divisor(S, q, den, st, upto):
    """True when it cannot be zero, False when it is or may be, None when not known; reason"""
    den = st.simp(den)
    t = type(den)
    if t is Const:
        if isinstance(den.v, (int, float)):
            return den.v != 0, 'the divisor is zero'
        return None, ''
    if t is Ite:
        rs = []
        for g, v in alts(st, den):
            if feasible(tuple(st.guards) + tuple(g)) is False:
                continue
            rs.append(divisor(S, q, v, st, upto))
        bad = [r for r in rs if r[0] is False]
        return bad[0] if bad else ((True, '') if all(r[0] for r in rs) else (None, ''))
    if t is Term:
        if den.rng is not None and (den.rng[0] > 0 or den.rng[1] < 0):
            return True, ''
        if den.op in ('sum', 'm:sum'):
            r = array_sum(S, q, den.args[0], upto)
            if r is not None:
                return r
        if outside_numbers(den):
            return None, ''
        f = feasible(tuple(st.guards) + ((Term('eq', (den, Const(0)), 'bool'), True),))
        if f is False:
            return True, ''
        if f is True:
            return False, 'the divisor %r may be zero' % (den,)
    return None, ''


def outside_numbers(v):
    from ..programs import names_in
    return bool(names_in(v))


def array_sum(S, q, arr, upto):
    """divisor summed over a part of an array made of one value and the values stored later"""
    base = arr
    while type(base) is Term and base.op in ('item', 'attr'):
        base = base.args[0]
    if type(base) is not Term or base.op != 'ext':
        return None
    n = base.args[0].v if type(base.args[0]) is Const else base.args[0]
    if n == 'numpy.full' and len(base.args) > 2 and type(base.args[2]) is Const:
        fill = base.args[2].v
    elif n == 'numpy.zeros':
        fill = 0
    elif n == 'numpy.ones':
        fill = 1
    else:
        return None
    stored = []
    for d in q.stores[:upto]:
        c = d['value']
        while type(c) is Term and c.op in ('item', 'attr'):
            c = c.args[0]
        if c != base:
            continue
        v = d.get('val')
        v = d['st'].simp(v) if isinstance(v, V) and 'st' in d else v
        stored.append(v.v if type(v) is Const else None)
    plain_ = [x for x in stored if x is not None]
    if fill > 0 and all(x >= 0 for x in plain_):
        return True, ''
    if fill == 0 and not stored:
        return False, 'the divisor is the sum of an array of zeros'
    return None, ''


def eigen(S, den):
    from ..programs import names_in
    return any('linalg' in x or 'eig' in x for x in names_in(den) if isinstance(x, str))


def judge(S, rep, name, out, q, at):
    met = set()
    for op, num, den, node, st, upto in q.met:
        if type(st.simp(num)) is Const and isinstance(st.simp(num).v, str):
            continue
        r, why = divisor(S, q, den, st, upto)
        met.add(S.loc(node))
        if r is None and eigen(S, st.simp(den)):
            continue
        rep.count('quotients examined')
        rep.decide(r, '%s: quotient at %s' % (name, S.loc(node)), S.loc(node), why)
    raised = [(e, s) for e, s in S.exc(out) if str(e).startswith('ZeroDivision') or 'ZeroDivision' in str(e)]
    if raised and not any(divisor(S, q, d[2], d[4], d[5])[0] is False for d in q.met):
        sure = [s for e, s in raised if feasible(tuple(s.guards)) is not False]
        rep.decide(False if sure and out.dead else None, name + ': no division by zero', at, 'ZeroDivisionError')
    elif not raised:
        rep.ok(name + ': no division by zero')
    return met


def run(rep):
    S = Session(rep)
    jobs = []
    for players, me in ((4, 0), (4, 2), (3, 1)):
        for sc in scripts(me, players):
            for plan in PLANS:
                jobs.append(('report', (sc, me, plan)))
    for hand in ('123m067p9s1234567z', '11112222333344m', '1111m2222m333344m', '19m19p19s12345677z'):
        for draws in ('0', '1', '3'):
            for tries in ('1', '2', '3'):
                for wins in ('no', 'all', 'some', 'one tile', 'last only'):
                    jobs.append(('simulation', (hand, draws, tries, wins)))
    jobs.append(('simulation', ('11112222333344m', '0', '', 'no')))
    jobs += [('combinations', ())]
    rep.parallel(jobs, lambda j: {'report': one_report, 'simulation': one_simulation, 'combinations': combinations}[j[0]](S, rep, *j[1]), limit=200)


def one_report(S, rep, sc, me, plan):
    name = 'report of %s (%d players, seat %d), %s' % (sc.name, sc.players, me, plan)
    at = S.loc_of(S.g(CHECK, 'render_template'))
    with rep.group(name):
        q = Quotients(S)
        b = report(S, sc, me, Judge(S, *PLANS[plan]), listen=q)
        judge(S, rep, name, b.out, q, at)
        if b.kwargs is None and not b.out.raises:
            rep.undecided(name, at, 'no report')


def one_simulation(S, rep, hand, draws, tries, wins):
    name = 'simulation of %s, %s draws, %r experiments, %s wins' % (hand, draws, tries, wins)
    at = S.loc_of(S.g(DEMO, 'main'))
    with rep.group(name):
        q = Quotients(S)
        h = hooks([Const(hand), Const(draws), Const(tries)])
        n = [0, 0]

        def choose(I, s, a, k, node):
            xs = seq(S, s, a[0]) if a else None
            if not xs:
                return NotImplemented
            n[0] += 1
            return I.new_list(s, [xs[n[0] * 5 % len(xs)]])

        def match(I, s, f, a, k, node):
            n[1] += 1
            if wins == 'one tile':
                hc = hand_counts(S, s, a[1] if len(a) > 1 else list(k.values())[0])
                return Const(bool(hc) and sum(weight(t) for t in hc) % 3 == 0)
            if wins == 'last only':
                return Const(n[1] % 5 == 4)
            return Const({'no': False, 'all': True, 'some': n[1] % 3 == 0}[wins])
        h['ext:random.choices'] = choose
        for c in ('NormalTypeWin', 'UniquePairs'):
            h[S.method_qual(WIN, c, 'match')] = match
        o = S.run(lambda I, s: I.call(s, S.g(DEMO, 'main'), [], {}, None), S.state(), intercepts=h, steps=4000000, listen=q)
        judge(S, rep, name, o, q, at)
        if not q.met:
            rep.undecided(name, at, 'no quotient met')


def combinations(S, rep):
    if not S.has(CHECK, 'n_c_r'):
        return
    for n in range(0, 8):
        for r in range(0, n + 1):
            name = 'n_c_r(%d, %d)' % (n, r)
            with rep.group(name):
                q = Quotients(S)
                o = S.run(lambda I, s: I.call(s, S.g(CHECK, 'n_c_r'), [Const(n), Const(r)], {}, None), S.state(), listen=q)
                judge(S, rep, name, o, q, S.loc_of(S.g(CHECK, 'n_c_r')))
