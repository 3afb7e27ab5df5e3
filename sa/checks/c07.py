"""C07: tile codes treat a red five as a five."""
from ..lib import *
from ..recs import *

RULE = ('Constant propagation over the complete finite domains: tile_from_tenhou is folded for each of the 136 tile numbers (and as a value '
        'number for a symbolic tile number of each kind), tile_to_tenhou_range and to_unicode_tile for each of the 34 ordinary tiles and the '
        'three red fives; number, suit, class and code are compared with the layout of the log format and of the Unicode block.')

T = 'mahjong.record.utils.value.tile'
D = 'mahjong.tile.definition'
R = 'mahjong.tenhou_record_check'


def unicode_of(n, c):
    if c == 'z':
        return chr(0x1f000 + {1: 0, 2: 1, 3: 2, 4: 3, 5: 6, 6: 5, 7: 4}[n])
    return chr(0x1f000 + {'m': 7, 's': 16, 'p': 25}[c] + (n or 5) - 1)


def tiles():
    for c in 'mps':
        for n in range(10):
            yield n, c
    for n in range(1, 8):
        yield n, 'z'


def make(S, I, st, n, c):
    return S.new(st, S.g(D, 'AkaTile' if n == 0 else 'Tile'), Const(n), Const(c))


def run(rep):
    S = Session(rep)
    frm = S.g(T, 'tile_from_tenhou')
    rng = S.g(T, 'tile_to_tenhou_range')
    wf, wr = S.loc_of(frm), S.loc_of(rng)
    for x in range(136):
        nm = 'tile number %d' % x
        with rep.group(nm):
            def go(I, s):
                t = I.call(s, frm, [Const(x)], {}, None)
                return Tup([t, I.get_attr(s, t, 'number', None), I.get_attr(s, t, 'color', None)])
            o = S.run(go)
            if o.dead:
                rep.bad(nm, wf, 'raises %s' % [n for n, _ in S.exc(o)])
                continue
            t, n, c = [o.st.simp(v) for v in o.value.items]
            suit, num = 'mpsz'[x // 36], x % 36 // 4 + 1
            if x in (16, 52, 88):
                num = 0
            ok = None
            if type(n) is Const and type(c) is Const:
                ok = (n.v, c.v) == (num, suit)
            rep.decide(ok, nm, wf, 'is tile %r%r, the format says %d%s' % (n, c, num, suit))
    for n, c in tiles():
        nm = 'range of %d%s' % (n, c)
        base = 'mpsz'.index(c) * 36 + ((n or 5) - 1) * 4
        with rep.group(nm):
            o = S.run(lambda I, s: I.call(s, rng, [make(S, I, s, n, c)], {}, None))
            if o.dead:
                rep.bad(nm, wr, 'raises %s' % [m for m, _ in S.exc(o)])
                continue
            got = seq(S, o.st, o.value)
            if got is None or any(type(g) is not Const for g in got):
                rep.undecided(nm, wr, repr(o.value))
                continue
            got = [g.v for g in got]
            rep.decide(sorted(got) == list(range(base, base + 4)), nm, wr, 'numbers %r, the format says %d to %d' % (got[:8], base, base + 3))
    if S.has(R, 'to_unicode_tile'):
        uni = S.g(R, 'to_unicode_tile')
        wu = S.loc_of(uni)
        for n, c in tiles():
            nm = 'character of %d%s' % (n, c)
            with rep.group(nm):
                o = S.run(lambda I, s: I.call(s, uni, [make(S, I, s, n, c)], {}, None))
                if o.dead:
                    rep.bad(nm, wu, 'raises %s' % [m for m, _ in S.exc(o)])
                    continue
                want = unicode_of(n, c)
                v = o.value
                rep.decide(v.v == want if type(v) is Const else None, nm, wu, 'gives %r, Unicode has U+%X' % (v, ord(want)))
    # conversions inside the universal commands
    ED = 'mahjong.record.universe.tenhou.event_definition'
    if S.has(ED, 'tile_str_list'):
        f = S.g(ED, 'tile_str_list')
        w = S.loc_of(f)
        for x in (0, 3, 15, 16, 17, 19, 20, 35, 36, 52, 53, 71, 72, 88, 89, 107, 108, 135):
            for as_text in (False, True):
                nm = 'command text of tile number %d%s' % (x, ' given as text' if as_text else '')
                with rep.group(nm):
                    suit, num = 'mpsz'[x // 36], x % 36 // 4 + 1
                    if x in (16, 52, 88):
                        num = 0
                    o = S.run(lambda I, s: I.call(s, f, [Const(str(x)) if as_text else I.new_list(s, [Const(x)])], {}, None))
                    if o.dead:
                        rep.bad(nm, w, 'raises %s' % [m for m, _ in S.exc(o)])
                        continue
                    got = plain(S, o.st, o.value)
                    rep.decide(got == ['%d%s' % (num, suit)], nm, w, 'gives %r' % (got,))
