"""Library modules: functools, operator, math, re, struct, json, ..."""
import math
import re
from .values import *
from .state import *
from .state import conj
from .m_str import lift1, to_int, to_str, re_call
from . import m_str
from . import m_coll as C
from . import m_items as M
from . import m_lib as L

IMPURE = ('input', 'random.', 'requests.', 'time.', 'os.urandom', 'uuid.', 'datetime.', 'numpy.random', 'secrets.')

OPFUNCS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow',
           'or_': 'BitOr', 'and_': 'BitAnd', 'xor': 'BitXor', 'lshift': 'LShift', 'rshift': 'RShift'}
CMPFUNCS = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'is_': 'Is', 'is_not': 'IsNot'}
IOPFUNCS = {'iadd': 'Add', 'isub': 'Sub', 'imul': 'Mult', 'ior': 'BitOr', 'iand': 'BitAnd'}

ALIASES = {
    'collections.Iterator': 'collections.abc.Iterator', 'typing.Counter': 'collections.Counter', 'typing.OrderedDict': 'collections.OrderedDict',
    'typing.DefaultDict': 'collections.defaultdict', 'typing.NamedTuple': 'typing.NamedTuple', 'collections.abc.Mapping': 'collections.abc.Mapping',
    'typing.Dict': 'typing.Dict', 'os.path.sep': 'os.path.sep', 'operator.iconcat': 'operator.iadd', 'operator.concat': 'operator.add',
    'functools.cache': 'functools.lru_cache()',
}


def ext_attr(I, mod, name):
    q = mod + '.' + name
    if mod == 'math':
        x = getattr(math, name, None)
        if isinstance(x, float):
            return Const(x)
    if mod == 'string':
        import string
        x = getattr(string, name, None)
        if isinstance(x, str):
            return Const(x)
    if mod == 'sys' and name == 'frozen':
        return Term('leaf', ('sys.frozen',), 'bool')        # only there in a bundled program
    if mod == 'sys' and name == 'maxsize':
        return Const(2 ** 63 - 1)
    if mod == 're' and name in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE'):
        return Const(int(getattr(re, name)))
    if mod == 'typing' and name == 'TYPE_CHECKING':
        return FALSE
    if mod == 'builtins' and name in I.builtins:
        return I.builtins[name]
    if mod == 'os' and name in ('sep', 'linesep'):
        return Const('/' if name == 'sep' else '\n')
    q = ALIASES.get(q, q)
    if q == 'functools.lru_cache()':
        return Bi('functools.cache')
    if q in ('os.error', 'IOError'):
        return Bi('OSError')
    return Bi(q)


import html, urllib.parse                                   # noqa: E402
PURE = {'urllib.parse.unquote': urllib.parse.unquote, 'urllib.parse.quote': urllib.parse.quote, 'html.escape': html.escape,
        'urllib.parse.unquote_plus': urllib.parse.unquote_plus}


def materialise(I, st, args, kwargs, node):
    """run generators handed to external code"""
    def one(v):
        if isinstance(v, tuple):
            return v
        v = st.simp(v)
        if type(v) is Ref and st.get(v.oid).kind in ('gen', 'lazy', 'iter') and not L.infinite(I, st, v):
            return I.collect(st, v, node)
        return v
    return [one(a) for a in args], {k: one(v) for k, v in kwargs.items()}


def folded(I, st, name, args, kwargs):
    """standard text functions of constants"""
    f = PURE.get(name)
    if f is None or kwargs or not all(isinstance(a, V) for a in args):
        return None
    xs = const_args(st, args)
    if xs is None:
        return None
    try:
        return Const(f(*xs))
    except Exception:
        return None


def external(I, st, name, args, kwargs, node):
    args, kwargs = materialise(I, st, args, kwargs, node)
    r = folded(I, st, name, args, kwargs)
    if r is not None:
        return r
    I.emit('ext_call', st=st, name=name, args=args, kwargs=kwargs, node=node, stack=list(I.stack))
    h = I.intercepts.get('ext:' + name)
    if h is not None:
        r = h(I, st, args, kwargs, node)
        if r is not NotImplemented:
            return r
    flat = tuple(a if isinstance(a, V) else Term('star', (a[1],)) for a in args) + \
        tuple(Tup([Const(k), v]) for k, v in sorted(kwargs.items()))
    if any(name == p or (p.endswith('.') and name.startswith(p)) for p in IMPURE):
        return Term('ext', (name,) + flat + (fresh('call'),))
    return Term('ext', (name,) + flat)


def const_args(st, args):
    out = []
    for a in args:
        x = m_str.const_of(st, st.simp(a) if isinstance(a, V) else a)
        if x is m_str.NONCONST:
            return None
        out.append(x)
    return out


def lift_args(I, st, args, fn):
    """apply fn when the arguments carry alternatives"""
    for i, a in enumerate(args):
        if isinstance(a, V):
            a = st.simp(a)
            if type(a) is Ite:
                return I.lift(st, a, lambda s, x: lift_args(I, s, args[:i] + [x] + args[i + 1:], fn))
            args = args[:i] + [a] + args[i + 1:]
    return fn(st, args)


def math_call(I, st, fn, args, node):
    def go(s, xs):
        vals = const_args(s, xs)
        f = getattr(math, fn, None)
        if vals is not None and f is not None:
            try:
                return Const(f(*vals))
            except (ValueError, TypeError, OverflowError) as e:
                I.raise_bi(s, type(e).__name__, node, str(e))
        ty = 'int' if fn in ('floor', 'ceil', 'gcd', 'factorial', 'comb', 'perm') else ('bool' if fn.startswith('is') else 'float')
        rng = (0, INF) if fn in ('sqrt', 'factorial', 'comb', 'perm', 'gcd', 'fabs') else None
        if fn == 'factorial':
            rng = (1, INF)
        if fn == 'exp':
            rng = (0, INF)
        return Term('math.' + fn, tuple(xs), ty, rng)
    return lift_args(I, st, list(args), go)


def bisect_call(I, st, fn, args, node):
    right = fn in ('bisect', 'bisect_right', 'insort', 'insort_right')
    es = I.entries(st, args[0], node)
    x = args[1]
    if es is None or any(e.g or e.many for e in es):
        idx = Term(fn, (st.simp(args[0]), st.simp(x)), 'int', (0, INF))
    else:
        # number of leading elements e with not (x < e) / e < x : an insertion point
        idx = Const(0)
        conds = []
        for e in es:
            if right:
                c = t_not(I.truth(st, C.lt_values(I, st, x, e.v, node), node))
            else:
                c = I.truth(st, C.lt_values(I, st, e.v, x, node), node)
            conds.append(c)
        n = 0
        undec = False
        for c in conds:
            if c == TRUE and not undec:
                n += 1
            elif c == FALSE:
                break
            else:
                undec = True
        if undec:
            parts = [Const(0)]
            run = TRUE
            for c in conds:
                run = I.c_and(run, c)
                parts.append(L.ite_num(run))
            # nested: the index is decided by the first failing comparison
            idx = Const(len(conds))
            for i in range(len(conds) - 1, -1, -1):
                idx = L.gate(conds[i], idx, Const(i))
        else:
            idx = Const(n)
    if fn.startswith('insort'):
        return I.call_method(st, args[0], 'insert', [idx, x], {}, node)
    return idx


# ------------------------------------------------------------- bit layouts

def parse_bits(fmt):
    if fmt and fmt[0] in '<>':
        fmt = fmt[1:]
    out = []
    for m in re.finditer(r'([a-zA-Z])(\d+)', fmt):
        out.append((m.group(1), int(m.group(2))))
    return out


def bits_unpack(I, st, fields, v, node):
    """MSB-first fields of the 16 bit word v"""
    total = sum(n for _, n in fields)
    if total > 16:
        I.raise_bi(st, 'ValueError', node, 'unpack requires at least %d bits to unpack' % total)
    pos = 16
    out = []
    for t, n in fields:
        pos -= n
        if t == 'p':
            continue
        out.append(bit_field(I, st, v, pos, n, t))
    return Tup(out)


def bit_field(I, st, v, pos, n, t):
    def one(x):
        if type(x) is Const:
            r = Const((int(x.v) >> pos) & ((1 << n) - 1))
        else:
            q = r = None
            top = pos + n
            y = x
            lo, hi = interval(x)
            if top < 16 or hi >= 65536:
                _, y = n_divmod(x, 1 << top)
            if y is not None:
                r, _ = n_divmod(y, 1 << pos) if pos else (y, None)
            if r is None:
                r = Term('bits', (x, pos, n), 'int', (0, (1 << n) - 1))
        if t == 'b':
            return t_not(n_eq(r, Const(0)))
        return r
    return map_ite(st.simp(v), one)


def bits_pack(I, st, fields, vals, node):
    total = sum(n for _, n in fields)
    pos = total
    acc = Const(0)
    it = list(vals)
    need = [f for f in fields if f[0] != 'p']
    if len(it) < len(need):
        I.raise_bi(st, 'ValueError', node, 'pack expected %d item(s) for packing' % len(need))
    for t, n in fields:
        pos -= n
        if t == 'p':
            continue
        v = st.simp(it.pop(0))

        def conv(x):
            if t == 'b':
                c = I.truth(st, x, node)
                return L.ite_num(c)
            if type(x) is Term and x.ty == 'bool':
                return L.ite_num(x)
            if type(x) is Const:
                return Const(int(x.v) & ((1 << n) - 1)) if isinstance(x.v, (int, float)) else x
            return x
        x = map_ite(v, conv)
        if ty_of(x) not in NUM:
            return Term('packed', tuple(st.simp(y) for y in vals), 'bytes')
        acc = C.num_add(acc, map_ite(x, lambda y: n_mul(y, Const(1 << pos))))
    # left aligned to whole bytes
    pad = (-total) % 8
    if pad:
        acc = map_ite(acc, lambda y: n_mul(y, Const(1 << pad)))
    return Term('bytes', ((total + pad) // 8, acc), 'bytes')


def struct_call(I, st, fn, args, node):
    fmt = st.resolve(st.simp(args[0]))
    if fmt == Const('>H') or fmt == Const('!H'):
        if fn == 'pack':
            def one(s, x):
                x = s.resolve(x)
                if ty_of(x) not in NUM:
                    if ty_of(x) in ('str', 'NoneType', 'tuple') or type(x) is Tup:
                        I.raise_bi(s, 'struct.error', node, 'required argument is not an integer')
                    x = Term('int', (x,), 'int')
                lo, hi = interval(x)
                if lo > 65535 or hi < 0:
                    I.raise_bi(s, 'struct.error', node, 'ushort format requires 0 <= number <= 65535')
                return Term('bytes', (2, x), 'bytes')
            return lift1(I, st, args[1], one)
        if fn == 'unpack':
            def two(s, b):
                if type(b) is Term and b.op == 'bytes':
                    if b.args[0] != 2:
                        I.raise_bi(s, 'struct.error', node, 'unpack requires a buffer of 2 bytes')
                    return Tup([b.args[1]])
                return Tup([Term('unpacked', (b,), 'int', (0, 65535))])
            return lift1(I, st, args[1], two)
    return external(I, st, 'struct.' + fn, args, {}, node)


def literal_eval(I, st, v, node):
    import ast as pyast

    def one(s, x):
        x = s.resolve(x)
        if type(x) is Const and isinstance(x.v, str):
            try:
                return from_py(I, s, pyast.literal_eval(x.v))
            except (ValueError, SyntaxError) as e:
                I.raise_bi(s, 'ValueError', node, str(e))
        if type(x) is Term:
            if x.op in ('str', 'repr') and ty_of(x.args[0]) in NUM:
                return x.args[0]
            if m_str.leaf_kind(x) == 'int':
                return Term('int', (x,), 'int')
        return Term('literal', (x,))
    return lift1(I, st, v, one)


def from_py(I, st, x):
    if isinstance(x, (list,)):
        return I.new_list(st, [from_py(I, st, y) for y in x])
    if isinstance(x, tuple):
        return Tup([from_py(I, st, y) for y in x])
    if isinstance(x, dict):
        return I.new_dict(st, [(from_py(I, st, k), from_py(I, st, v)) for k, v in x.items()])
    if isinstance(x, set):
        return I.new_set(st, [from_py(I, st, y) for y in x])
    return Const(x)


def copy_value(I, st, v, deep, node, memo=None):
    memo = {} if memo is None else memo

    def one(s, x):
        if type(x) is Tup and deep:
            return Tup([copy_value(I, s, y, deep, node, memo) for y in x.items], x.cls)
        if type(x) is not Ref:
            return x
        if x in memo:
            return memo[x]
        o = s.get(x.oid)
        if o.kind in ('class', 'func', 'module'):
            return x
        if o.kind == 'inst' and type(o.cls) is Ref:
            if s.get(o.cls.oid).data.enum:
                return x
            m = I.find_user_method(s, x, '__deepcopy__' if deep else '__copy__')
            if m is not None:
                return I.call(s, Bound(m, x), [NONE] if deep else [], {}, node)
        n = s.new(Obj(o.kind, o.cls, dict(o.attrs), None, o.site if o.kind == 'inst' else node))
        memo[x] = n
        d = o.data
        if type(d) is list:
            d = [Entry(copy_value(I, s, e.v, deep, node, memo) if deep and isinstance(e, Entry) else e.v, e.g, e.many) if isinstance(e, Entry) else e for e in d]
        elif type(d) is dict:
            d = {k: (DEntry(e.k, copy_value(I, s, e.v, deep, node, memo) if deep else e.v, e.g) if isinstance(e, DEntry) else e) for k, e in d.items()}
        w = s.w(n.oid)
        w.data = d
        if deep:
            for k, y in list(o.attrs.items()):
                s.w(n.oid).attrs[k] = copy_value(I, s, y, deep, node, memo)
        return n
    return lift1(I, st, v, one)
