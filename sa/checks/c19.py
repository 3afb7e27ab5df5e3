"""C19: game-type flags come from the bits the log format defines."""
from ..lib import *

RULE = ('Bit-provenance by value numbering: GameType is built from the text of a symbolic 16 bit code (eleven defined bits and the undefined '
        'rest as separate atoms); the value number of every accessor, of str() and of == is compared with the function of the code that the '
        'log format defines, tabulated over the atoms that occur in it.')

M = 'mahjong.record.utils.value.gametype'


def code(tag, over=None):
    over = over or {}
    bits = [over.get(i) or Term('leaf', ('%sbit%d' % (tag, i),), 'int', (0, 1)) for i in range(11)]
    rest = over.get('rest') or Term('leaf', (tag + 'undefined_bits',), 'int', (0, 31))
    c = n_mul(rest, Const(1 << 11))
    for i, b in enumerate(bits):
        c = n_add(c, n_mul(b, Const(1 << i)))
    return Term('str', (c,), 'str'), bits, rest, c


def ite(b, x, y):
    x = x if isinstance(x, V) else Const(x)
    y = y if isinstance(y, V) else Const(y)
    return mk_ite(n_eq(b, Const(0)), y, x)


def mk_ite(c, a, b):
    return Ite(c, a, b)


def cat(*xs):
    return Term('cat', tuple(x if isinstance(x, V) else Const(x) for x in xs), 'str')


def spec(b):
    level = n_add(n_mul(b[5], Const(2)), b[7])
    names = lambda s: Term('pick', (Const(s), level), 'str')
    players = ite(b[4], 3, 4)
    winds = ite(b[3], 2, 1)
    lvl = [ite(b[9], '若銀琥孔'[i], '般上特鳳'[i]) for i in range(4)]
    lvl = ite(b[5], ite(b[7], lvl[3], lvl[2]), ite(b[7], lvl[1], lvl[0]))
    text = cat(ite(b[4], '三', '四'), lvl, ite(b[3], '南', '東'), ite(b[2], '', '喰'), ite(b[1], '', '赤'), ite(b[6], '速', ''),
               ite(b[8], '暗', ''), ite(b[9], ite(b[10], '祝5', '祝2'), ''))
    return {
        'player_count': players,
        'has_aka_dora': ite(b[1], False, True),
        'play_level': level,
        'speed_up': ite(b[6], True, False),
        'allow_tanyao_open': ite(b[2], False, True),
        'play_wind_count': winds,
        'main_game_count': ite(b[3], ite(b[4], 6, 8), ite(b[4], 3, 4)),
        'with_tips': ite(b[9], True, False),
        'tips_count': ite(b[9], ite(b[10], 5, 2), 0),
        'show_discard_shadow': ite(b[8], True, False),
        '__str__': text,
    }


def run(rep):
    S = Session(rep)
    GT = S.g(M, 'GameType')
    arg, bits, rest, c = code('')
    for meth, want in spec(bits).items():
        with rep.group(meth):
            at = S.I.class_attr(S.base, GT, meth)
            w = S.loc_of(at) if at is not None else ''
            if at is None:
                rep.undecided(meth, '', 'not defined')
                continue
            o = S.run(lambda I, s: I.call_method(s, S.new(s, GT, arg), meth, [], {}, None))
            if o.dead:
                rep.bad(meth + ' raises', w, str([n for n, _ in S.exc(o)]))
                continue
            if o.raises:
                rep.undecided(meth + ' always answers', w, str([n for n, _ in S.exc(o)]))
            d, wit = differ(o.value, want)
            rep.decide({'equal': True, 'differ': False}.get(d), meth, w,
                       'value %r; format defines %r; e.g. for %s' % (o.value, want, wit))
    eq = S.I.class_attr(S.base, GT, '__eq__')
    w = S.loc_of(eq)
    for i in list(range(11)) + ['rest']:
        ignored = i in (0, 'rest')
        nm = 'two types that differ only in %s are %s' % ('bit %d' % i if i != 'rest' else 'the undefined high bits', 'equal' if ignored else 'different')
        with rep.group(nm):
            if i == 'rest':
                x, y = code('', {'rest': Term('leaf', ('highA',), 'int', (0, 31))}), code('', {'rest': Term('leaf', ('highB',), 'int', (0, 31))})
                px, py = x[2], y[2]
            else:
                x, y = code('', {i: Const(0)}), code('', {i: Const(1)})
                px, py = Const(0), Const(1)
            o = S.run(lambda I, s: I.compare(s, 'Eq', S.new(s, GT, x[0]), S.new(s, GT, y[0]), None))
            if o.dead:
                rep.bad(nm, w, 'raises')
                continue
            want = Const(True) if ignored else n_eq(px, py)
            rep.decide(same_value(o.value, want), nm, w, 'equality gives %r' % (o.value,))
    for players in ('reflexive',):
        nm = 'a game type equals itself read again'
        with rep.group(nm):
            o = S.run(lambda I, s: I.compare(s, 'Eq', S.new(s, GT, arg), S.new(s, GT, arg), None))
            rep.decide(same_value(o.value, Const(True)) if not o.dead else False, nm, w, repr(o.value))
