"""Abstract values.

Every value is immutable and hash-consed where that matters:

  Const(v)          a known scalar
  Tup(items, cls)   a tuple (cls: Ref of a namedtuple class)
  Ref(oid)          an object of the abstract heap
  Term(op, args)    an opaque value identified by how it was computed
                    (a value number: equal terms denote equal values)
  Ite(c, a, b)      a value that depends on the undecided condition c
  Bi(name)          a builtin / library function, type or module
  Bound(f, self)    a bound method of an analysed function
  Bm(recv, name)    a method of a builtin kind of object

Nothing here knows about the repository.
"""
from fractions import Fraction
import math


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if type(o) is not Const:
            return False
        a, b = self.v, o.v
        if type(a) is not type(b):
            return False
        return a == b or (a != a and b != b)

    def __hash__(self):
        v = self.v
        if v != v:
            return 77
        return hash((type(v).__name__, v))

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def cbool(b):
    return TRUE if b else FALSE


class Tup(V):
    __slots__ = ('items', 'cls', '_h')

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls
        self._h = None

    def __eq__(self, o):
        return self is o or (type(o) is Tup and self.items == o.items and self.cls == o.cls)

    def __hash__(self):
        if self._h is None:
            self._h = hash(('tup', self.items))
        return self._h

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + (',)' if len(self.items) == 1 else ')')


class Ref(V):
    __slots__ = ('oid',)
    _pool = {}

    def __new__(cls, oid):
        r = cls._pool.get(oid)
        if r is None:
            r = object.__new__(cls)
            r.oid = oid
            cls._pool[oid] = r
        return r

    def __repr__(self):
        return '#%d' % self.oid


class Term(V):
    __slots__ = ('op', 'args', 'ty', 'rng', 'n', '_k')
    _pool = {}

    def __new__(cls, op, args=(), ty=None, rng=None):
        k = (op, args)
        t = cls._pool.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.ty = ty
            t.rng = rng
            t.n = len(cls._pool)
            t._k = hash(k)
            cls._pool[k] = t
        else:
            if t.ty is None and ty is not None:
                t.ty = ty
            if t.rng is None and rng is not None:
                t.rng = rng
            elif op == 'leaf' and rng is not None and t.rng != rng:
                raise ValueError('unknown %r stands for two ranges' % (args,))
        return t

    def __hash__(self):
        return self._k

    def __repr__(self):
        if self.op == 'leaf':
            return '<%s>' % self.args[0]
        if self.op == 'lin':
            c, parts = self.args
            out = []
            for a, k in parts:
                out.append(('%s' % a) if k == 1 else '%s*%r' % (k, a))
            if c:
                out.append(str(c))
            return '(' + ' + '.join(out) + ')'
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Ite(V):
    __slots__ = ('c', 'a', 'b', '_k')
    _pool = {}

    def __new__(cls, c, a, b):
        k = (c, a, b)
        t = cls._pool.get(k)
        if t is None:
            t = object.__new__(cls)
            t.c, t.a, t.b = c, a, b
            t._k = hash(('ite', k))
            cls._pool[k] = t
        return t

    def __hash__(self):
        return self._k

    def __repr__(self):
        return '{%r ? %r : %r}' % (self.c, self.a, self.b)


class Bi(V):
    __slots__ = ('name',)
    _pool = {}

    def __new__(cls, name):
        r = cls._pool.get(name)
        if r is None:
            r = object.__new__(cls)
            r.name = name
            cls._pool[name] = r
        return r

    def __repr__(self):
        return '<%s>' % self.name


class Bound(V):
    __slots__ = ('f', 'self')

    def __init__(self, f, s):
        self.f = f
        self.self = s

    def __eq__(self, o):
        return type(o) is Bound and self.f == o.f and self.self == o.self

    def __hash__(self):
        return hash(('bound', self.f, self.self))

    def __repr__(self):
        return 'bound(%r,%r)' % (self.f, self.self)


class Bm(V):
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __eq__(self, o):
        return type(o) is Bm and self.recv == o.recv and self.name == o.name

    def __hash__(self):
        return hash(('bm', self.recv, self.name))

    def __repr__(self):
        return '%r.%s' % (self.recv, self.name)


class Super(V):
    __slots__ = ('cls', 'self')

    def __init__(self, c, s):
        self.cls = c
        self.self = s

    def __repr__(self):
        return 'super(%r,%r)' % (self.cls, self.self)


UNDEF = Bi('<undefined>')


# ----------------------------------------------------------------- leaves

def leaf(name, ty=None, rng=None):
    return Term('leaf', (name,), ty, rng)


_fresh = [0]


def fresh(prefix, ty=None):
    _fresh[0] += 1
    return Term('fresh', (prefix, _fresh[0]), ty)


def is_num_const(v):
    return type(v) is Const and type(v.v) in (int, float, bool)


NUM = ('int', 'float', 'bool')


def ty_of(v):
    """name of the builtin type of a value when it is known, else None"""
    t = type(v)
    if t is Const:
        return type(v.v).__name__ if v.v is not None else 'NoneType'
    if t is Tup:
        return 'tuple'
    if t is Term:
        return v.ty
    if t is Ite:
        a, b = ty_of(v.a), ty_of(v.b)
        if a == b:
            return a
        if a in NUM and b in NUM:
            return 'float'
        return None
    return None


def ite(c, a, b):
    """gated value; c is a condition term"""
    if a is b or a == b:
        return a
    if type(c) is Const:
        return a if c.v else b
    while type(c) is Term and c.op == 'not':
        c = c.args[0]
        a, b = b, a
    if type(a) is Ite and a.c is c:
        a = a.a
    if type(b) is Ite and b.c is c:
        b = b.b
    if a is b or a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return t_not(c)
    return Ite(c, a, b)


def t_not(c):
    if type(c) is Const:
        return cbool(not c.v)
    if type(c) is Term and c.op == 'not':
        return c.args[0]
    if type(c) is Ite:
        return ite(c.c, t_not(c.a), t_not(c.b))
    return Term('not', (c,), 'bool')


def map_ite(v, f):
    if type(v) is Ite:
        return ite(v.c, map_ite(v.a, f), map_ite(v.b, f))
    return f(v)


def map_ite2(a, b, f):
    if type(a) is Ite:
        return ite(a.c, map_ite2(a.a, pick(b, a.c, True), f), map_ite2(a.b, pick(b, a.c, False), f))
    if type(b) is Ite:
        return ite(b.c, map_ite2(a, b.a, f), map_ite2(a, b.b, f))
    return f(a, b)


def pick(v, c, pol):
    """v under the assumption c == pol"""
    if type(v) is Ite:
        if v.c is c:
            return pick(v.a if pol else v.b, c, pol)
        return ite(v.c, pick(v.a, c, pol), pick(v.b, c, pol))
    return v


def alternatives(v, lits=()):
    """[(literals, non-Ite value)]"""
    if type(v) is Ite:
        known = dict(lits)
        if v.c in known:
            return alternatives(v.a if known[v.c] else v.b, lits)
        return alternatives(v.a, lits + ((v.c, True),)) + alternatives(v.b, lits + ((v.c, False),))
    return [(lits, v)]


# ----------------------------------------------------------------- numbers

def lin_parts(v):
    """(const, {atom: coef}) for a numeric value"""
    if type(v) is Const:
        return v.v, {}
    if type(v) is Term and v.op == 'lin':
        return v.args[0], dict(v.args[1])
    return 0, {v: 1}


def mk_lin(c, parts, ty):
    ps = tuple(sorted(((a, k) for a, k in parts.items() if k != 0), key=lambda t: (t[0].n if type(t[0]) is Term else -1)))
    if not ps:
        return Const(c)
    if len(ps) == 1 and ps[0][1] == 1 and c == 0:
        return ps[0][0]
    return Term('lin', (c, ps), ty)


def num_ty(a, b):
    ta, tb = ty_of(a), ty_of(b)
    if ta == 'float' or tb == 'float':
        return 'float'
    return 'int'


def is_num(v):
    return ty_of(v) in NUM


def n_add(a, b):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    for k, x in pb.items():
        pa[k] = pa.get(k, 0) + x
    return mk_lin(ca + cb, pa, num_ty(a, b))


def n_neg(a):
    c, p = lin_parts(a)
    return mk_lin(-c, {k: -x for k, x in p.items()}, ty_of(a) or 'int')


def n_sub(a, b):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    for k, x in pb.items():
        pa[k] = pa.get(k, 0) - x
    return mk_lin(ca - cb, pa, num_ty(a, b))


def n_mul(a, b):
    if type(b) is Const and type(a) is not Const:
        a, b = b, a
    if type(a) is Const:
        c, p = lin_parts(b)
        k = a.v
        return mk_lin(c * k, {t: x * k for t, x in p.items()}, num_ty(a, b))
    # product of two symbolic values: distribute over sums
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    out = {}
    const = ca * cb
    for t, x in pa.items():
        if cb:
            out[t] = out.get(t, 0) + x * cb
        for u, y in pb.items():
            m = _mono(t, u)
            out[m] = out.get(m, 0) + x * y
    for u, y in pb.items():
        if ca:
            out[u] = out.get(u, 0) + ca * y
    return mk_lin(const, out, num_ty(a, b))


def _mono(t, u):
    fs = []
    for x in (t, u):
        if type(x) is Term and x.op == 'mul':
            fs.extend(x.args)
        else:
            fs.append(x)
    fs.sort(key=lambda z: z.n if type(z) is Term else -1)
    return Term('mul', tuple(fs), num_ty(t, u))


INF = math.inf


def interval(v):
    """sound bounds of a numeric value"""
    t = type(v)
    if t is Const:
        if type(v.v) in (int, float, bool) and v.v == v.v:
            return (v.v, v.v)
        return (-INF, INF)
    if t is Ite:
        a, b = interval(v.a), interval(v.b)
        return (min(a[0], b[0]), max(a[1], b[1]))
    if t is Term:
        if v.rng is not None:
            return v.rng
        if v.op == 'lin':
            lo = hi = v.args[0]
            for a, k in v.args[1]:
                x, y = interval(a)
                if k > 0:
                    lo += k * x
                    hi += k * y
                else:
                    lo += k * y
                    hi += k * x
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
            return (lo, hi)
        if v.op == 'mul':
            lo, hi = 1, 1
            for a in v.args:
                x, y = interval(a)
                c = []
                for p in (lo, hi):
                    for q in (x, y):
                        r = p * q
                        c.append(0 if r != r else r)
                lo, hi = min(c), max(c)
            return (lo, hi)
        if v.op == 'len':
            return (0, INF)
        if v.op == 'mod' and type(v.args[1]) is Const and isinstance(v.args[1].v, int) and v.args[1].v > 0:
            return (0, v.args[1].v - 1)
        if v.ty == 'bool':
            return (0, 1)
    return (-INF, INF)


def n_divmod(a, k):
    """(a // k, a % k) for symbolic a and constant k > 0, exact when the
    positional structure of a decides it"""
    c, p = lin_parts(a)
    if isinstance(c, float) or isinstance(k, float):
        return None, None
    qparts, rparts = {}, {}
    for t, x in p.items():
        if not isinstance(x, int) or ty_of(t) not in ('int', 'bool'):
            return None, None
        if x % k == 0:
            qparts[t] = x // k
        else:
            rparts[t] = x
    qc, rc = divmod(c, k)
    rest = mk_lin(rc, rparts, 'int')
    lo, hi = interval(rest)
    if lo == -INF or hi == INF:
        return None, None
    # the remainder part must stay within one period
    j = lo // k
    if hi < (j + 1) * k:
        j = int(j)
        return mk_lin(qc + j, qparts, 'int'), n_sub(rest, Const(j * k))
    return None, None


def n_qr(a, k):
    """(a // k, a % k) in canonical form, for an integer a and constant k > 0"""
    q, r = n_divmod(a, k)
    if q is not None:
        return q, r
    c, p = lin_parts(a)
    if isinstance(c, float) or any(not isinstance(x, int) or ty_of(t) not in ('int', 'bool') for t, x in p.items()):
        lo, hi = interval(a)
        return Term('floordiv', (a, Const(k)), 'int'), Term('mod', (a, Const(k)), 'int', (0, k - 1))
    qc, rc = divmod(c, k)
    qp, rp = {}, {}
    for t, x in p.items():
        y, z = divmod(x, k)
        if y:
            qp[t] = y
        if z:
            rp[t] = z
    rest = mk_lin(rc, rp, 'int')
    # mod(mod(x, m), k) with k | m
    if type(rest) is Term and rest.op == 'mod' and type(rest.args[1]) is Const and rest.args[1].v % k == 0:
        m = rest.args[1].v
        q1, r1 = n_qr(rest.args[0], k)
        _, q2 = n_qr(q1, m // k)
        return n_add(mk_lin(qc, qp, 'int'), q2), r1
    # floordiv(floordiv(x, m), k)
    if type(rest) is Term and rest.op == 'floordiv' and type(rest.args[1]) is Const:
        fq, _ = n_qr(rest.args[0], k * rest.args[1].v)
    else:
        lo, hi = interval(rest)
        fq = Term('floordiv', (rest, Const(k)), 'int', (lo // k if lo != -INF else lo, hi // k if hi != INF else hi))
    return n_add(mk_lin(qc, qp, 'int'), fq), Term('mod', (rest, Const(k)), 'int', (0, k - 1))


def n_eq(a, b):
    """decide a == b for numeric values"""
    d = n_sub(a, b)
    if type(d) is Const:
        return cbool(d.v == 0)
    lo, hi = interval(d)
    if lo > 0 or hi < 0:
        return FALSE
    c, p = lin_parts(d)
    if all(isinstance(x, int) for x in p.values()) and isinstance(c, int) and all(ty_of(t) in ('int', 'bool') for t in p):
        g = 0
        for x in p.values():
            g = math.gcd(g, x)
        if g and c % g:
            return FALSE
        # positional elimination: peel the term whose coefficient divides all others
        r = _digit_eq(c, p)
        if r is False:
            return FALSE
    first = sorted(p.items(), key=lambda t: t[0].n if type(t[0]) is Term else -1)[0]
    if first[1] < 0:
        d = n_neg(d)
    return Term('eq0', (d,), 'bool')


def _digit_eq(c, p):
    return None


def n_lt(a, b):
    d = n_sub(a, b)
    if type(d) is Const:
        return cbool(d.v < 0)
    lo, hi = interval(d)
    if hi < 0:
        return TRUE
    if lo >= 0:
        return FALSE
    return Term('lt0', (d,), 'bool')


# ----------------------------------------------------------------- strings

def s_cat(parts):
    """concatenation in canonical form: adjacent constants merged"""
    out = []
    for p in parts:
        if type(p) is Term and p.op == 'cat':
            for q in p.args:
                _push(out, q)
        else:
            _push(out, p)
    if not out:
        return Const('')
    if len(out) == 1:
        if type(out[0]) is Const or ty_of(out[0]) == 'str':
            return out[0]
    return Term('cat', tuple(out), 'str')


def _push(out, q):
    if type(q) is Const and q.v == '':
        return
    if type(q) is Const and out and type(out[-1]) is Const:
        out[-1] = Const(out[-1].v + q.v)
    else:
        out.append(q)


def leaves_of(v, acc=None, seen=None):
    """all leaf terms a value was computed from (heap objects not followed)"""
    if acc is None:
        acc, seen = set(), set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (Term, Ite)):
            if x in seen:
                continue
            seen.add(x)
        if type(x) is Term:
            if x.op == 'leaf':
                acc.add(x)
            else:
                for a in x.args:
                    st.append(a)
        elif type(x) is Ite:
            st.extend((x.c, x.a, x.b))
        elif type(x) is Tup:
            st.extend(x.items)
        elif type(x) is tuple:
            st.extend(x)
    return acc
