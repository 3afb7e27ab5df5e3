"""C29: dora and tile-stock tables."""
from collections import Counter
from ..lib import *

RULE = ('Constant propagation through the module initialisers and the functions doras and initial_tiles of mahjong.record.const: for each of '
        'the 37 tile names, alone and in pairs, the list doras returns is folded to a constant and compared with the cycles of the rules; for '
        'each player count and red-five setting the multiset of initial_tiles is folded and compared with the stock of the rules. An effect '
        'analysis shows neither function writes a module-level table.')

M = 'mahjong.record.const'


def next_dora(t):
    n, c = t[0], t[1]
    if n == '0':
        return ['6' + c]
    n = int(n)
    if c == 'z':
        m = {1: 2, 2: 3, 3: 4, 4: 1, 5: 6, 6: 7, 7: 5}[n]
        return ['%dz' % m]
    m = n % 9 + 1
    return ['%d%s' % (m, c)] + (['0' + c] if m == 5 else [])


def stock(players, aka):
    c = Counter()
    for s in 'mpsz':
        for n in range(1, 8 if s == 'z' else 10):
            if players == 3 and s == 'm' and n not in (1, 9):
                continue
            c['%d%s' % (n, s)] = 4
    if aka:
        for s in 'mps':
            if c['5' + s]:
                c['5' + s] -= 1
                c['0' + s] += 1
    return c



def run(rep):
    S = Session(rep)
    doras = S.g(M, 'doras')
    init = S.g(M, 'initial_tiles')
    names = ['%d%s' % (n, s) for s in 'mps' for n in range(0, 10)] + ['%dz' % n for n in range(1, 8)]
    wd, wi = S.loc_of(doras), S.loc_of(init)
    pairs = [(a,) for a in names] + [(a, b) for a in ('4m', '0p', '9s', '4z', '7z') for b in ('4m', '3s', '0s')]
    for ts in pairs:
        nm = 'doras of %s' % '+'.join(ts)
        with rep.group(nm):
            o = S.run(lambda I, s: I.call(s, doras, [I.new_list(s, [Const(t) for t in ts])], {}, None))
            if o.dead:
                rep.bad(nm, wd, 'raises %s' % [n for n, _ in S.exc(o)])
                continue
            try:
                got = plain(S, o.st, o.value)
            except NotPlain as e:
                rep.undecided(nm, wd, repr(e))
                continue
            want = [x for t in ts for x in next_dora(t)]
            rep.decide(sorted(got) == sorted(want), nm, wd, 'folded to %r, the rules say %r' % (got, want))
    for players in (3, 4):
        for aka in (True, False):
            nm = 'stock of %d players %s red fives' % (players, 'with' if aka else 'without')
            with rep.group(nm):
                o = S.run(lambda I, s: I.call(s, init, [Const(players), Const(aka)], {}, None))
                if o.dead:
                    rep.bad(nm, wi, 'raises %s' % [n for n, _ in S.exc(o)])
                    continue
                try:
                    got = Counter(plain(S, o.st, o.value))
                except NotPlain as e:
                    rep.undecided(nm, wi, repr(e))
                    continue
                want = stock(players, aka)
                d = {k: (got[k], want[k]) for k in got | want if got[k] != want[k]}
                rep.decide(not d, nm, wi, 'copies (table, rules): %r' % d)
    for nm, f, args in (('doras', doras, None), ('initial_tiles', init, [Const(3), Const(True)])):
        name = '%s gives the same answer when asked again' % nm
        with rep.group(name):
            def twice(I, s):
                a = args or [I.new_list(s, [Const('4m'), Const('4p')])]
                x = I.call(s, f, a, {}, None)
                first = plain(S, s, x)
                b = args or [I.new_list(s, [Const('4m'), Const('4p')])]
                y = I.call(s, f, b, {}, None)
                return (first, plain(S, s, y))
            o = S.run(twice)
            if o.dead:
                rep.bad(name, S.loc_of(f), 'raises on the second call')
            else:
                rep.decide(sorted(o.value[0]) == sorted(o.value[1]), name, S.loc_of(f), 'first %r, second %r' % o.value)
