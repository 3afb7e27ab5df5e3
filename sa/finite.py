"""Comparing two value numbers over finite leaf domains.

When two canonical forms are not identical the difference is decided by
tabulating both over the declared ranges of their leaves (never by running
the analysed code)."""
import itertools
import urllib.parse
from .values import *

LIMIT = 70000


class Opaque(Exception):
    pass


def ev(v, env, memo):
    t = type(v)
    if t is Const:
        return v.v
    if t is Tup:
        return tuple(ev(x, env, memo) for x in v.items)
    if t is Ite:
        return ev(v.a if ev(v.c, env, memo) else v.b, env, memo)
    if t is not Term:
        raise Opaque(v)
    if v in memo:
        return memo[v]
    op = v.op
    a = v.args
    if op == 'leaf':
        if v not in env:
            raise Opaque(v)
        r = env[v]
    elif op == 'lin':
        r = a[0] + sum(k * ev(x, env, memo) for x, k in a[1])
    elif op == 'mul':
        r = 1
        for x in a:
            r *= ev(x, env, memo)
    elif op == 'floordiv':
        r = ev(a[0], env, memo) // ev(a[1], env, memo)
    elif op == 'mod':
        r = ev(a[0], env, memo) % ev(a[1], env, memo)
    elif op == 'div':
        r = ev(a[0], env, memo) / ev(a[1], env, memo)
    elif op == 'eq0':
        r = ev(a[0], env, memo) == 0
    elif op == 'lt0':
        r = ev(a[0], env, memo) < 0
    elif op == 'not':
        r = not ev(a[0], env, memo)
    elif op == 'and':
        r = all(ev(x, env, memo) for x in a)
    elif op == 'or':
        r = any(ev(x, env, memo) for x in a)
    elif op == 'bits':
        r = (ev(a[0], env, memo) >> a[1]) & ((1 << a[2]) - 1)
    elif op == 'bitand':
        r = ev(a[0], env, memo) & ev(a[1], env, memo)
    elif op == 'bitor':
        r = ev(a[0], env, memo) | ev(a[1], env, memo)
    elif op == 'bitxor':
        r = ev(a[0], env, memo) ^ ev(a[1], env, memo)
    elif op in ('str', 'repr'):
        x = ev(a[0], env, memo)
        if not isinstance(x, (int, str)):
            raise Opaque(v)
        r = str(x)
    elif op == 'cat':
        r = ''.join(str(ev(x, env, memo)) for x in a)
    elif op == 'nth_sorted':
        r = sorted(ev(a[0], env, memo))[ev(a[1], env, memo)]
    elif op == 'abs':
        r = abs(ev(a[0], env, memo))
    elif op == 'eq':
        r = ev(a[0], env, memo) == ev(a[1], env, memo)
    elif op == 'tile':
        r = tile_text(ev(a[0], env, memo))
    elif op == 'index' and len(a) == 2:
        r = ev(a[0], env, memo)[ev(a[1], env, memo)]
    elif op == 'float' and len(a) == 1:
        r = float(ev(a[0], env, memo))
    elif op == 'int' and len(a) == 1:
        r = int(ev(a[0], env, memo))
    elif op == 'strip' and len(a) == 1:
        r = ev(a[0], env, memo).strip()
    elif op == 'ext' and len(a) == 2 and a[0] in ('urllib.parse.unquote', Const('urllib.parse.unquote')):
        r = urllib.parse.unquote(ev(a[1], env, memo))
    else:
        raise Opaque(v)
    memo[v] = r
    return r


def tile_text(n):
    """the text of tile number n (red fives are the first copy of a five)"""
    kind, copy = divmod(n, 4)
    suit, num = divmod(kind, 9)
    if not 0 <= n < 136:
        raise Opaque(n)
    if suit < 3 and num == 4 and copy == 0:
        return '0' + 'mps'[suit]
    return '%d%s' % (num + 1, 'mpsz'[suit])


TEXTS = {'text': ['A', 'n%41', 'b c'], 'dec': ['1500.25', '-12.5', '0.75'], 'int': ['0', '7', '12']}


def domain(l):
    if l.ty == 'str':
        return TEXTS[l.args[1]], False
    lo, hi = l.rng if l.rng is not None else ((0, 1) if l.ty == 'bool' else (-INF, INF))
    if lo == -INF and hi == INF:
        return [-3, -1, 0, 1, 2, 5], False
    if hi == INF:
        return [lo, lo + 1, lo + 2, lo + 7], False
    if lo == -INF:
        return [hi, hi - 1, hi - 5], False
    if hi - lo > 70000:
        return [lo, lo + 1, (lo + hi) // 2, hi - 1, hi], False
    return list(range(int(lo), int(hi) + 1)), True


def differ(a, b, assume=()):
    """('equal', None) / ('differ', witness) / (None, reason)

    assume: (condition, polarity) literals restricting the table"""
    ls = leaves_of(a) | leaves_of(b)
    for c, _ in assume:
        ls |= leaves_of(c)
    ls = sorted(ls, key=lambda t: t.n)
    doms, full = [], True
    n = 1
    for l in ls:
        if l.ty not in ('int', 'bool') and not (l.ty == 'str' and len(l.args) == 2 and l.args[1] in TEXTS):
            return None, 'leaf %r is not a number' % l
        d, f = domain(l)
        doms.append(d)
        full = full and f
        n *= len(d)
    for k in (4, 3, 2):
        if n > LIMIT:
            doms = [d if len(d) <= k else [d[i * (len(d) - 1) // (k - 1)] for i in range(k)] for d in doms]
            full = False
            n = 1
            for d in doms:
                n *= len(d)
    if n > LIMIT:
        return None, 'table too large'
    try:
        for vals in itertools.product(*doms):
            env = dict(zip(ls, vals))
            memo = {}
            if any(bool(ev(c, env, memo)) != p for c, p in assume):
                continue
            x, y = ev(a, env, memo), ev(b, env, memo)
            if x != y:
                return 'differ', {repr(k): q for k, q in env.items()}
    except (Opaque, ZeroDivisionError, TypeError, ValueError, IndexError, AttributeError) as e:
        return None, 'opaque %s' % e
    return ('equal', None) if full else (None, 'agrees on samples')


def same_value(a, b, assume=()):
    """True / False / None"""
    if a == b:
        return True
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v == b.v
    r, w = differ(a, b)
    if r == 'differ' and assume:
        r, w = differ(a, b, connected(a, b, assume))
    return {'equal': True, 'differ': False}.get(r)


def connected(a, b, assume):
    """the literals that share leaves with a and b, directly or through others"""
    ls = leaves_of(a) | leaves_of(b)
    todo = [(c, p, leaves_of(c)) for c, p in assume]
    out = []
    grown = True
    while grown:
        grown = False
        rest = []
        for c, p, l in todo:
            if l & ls or not l:
                out.append((c, p))
                ls |= l
                grown = True
            else:
                rest.append((c, p, l))
        todo = rest
    return out


def feasible(lits):
    """can the literals hold together: True / False / None"""
    ls = set()
    for c, _ in lits:
        if type(c) is Const:
            continue
        ls |= leaves_of(c)
    ls = sorted(ls, key=lambda t: t.n)
    doms, full, n = [], True, 1
    for l in ls:
        if l.ty not in ('int', 'bool'):
            return None
        d, f = domain(l)
        doms.append(d)
        full = full and f
        n *= len(d)
    if n > LIMIT:
        return None
    try:
        for vals in itertools.product(*doms):
            env = dict(zip(ls, vals))
            memo = {}
            if all(bool(ev(c, env, memo)) == p for c, p in lits):
                return True
    except (Opaque, ZeroDivisionError, TypeError):
        return None
    return False if full else None
