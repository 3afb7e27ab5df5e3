"""Calls of builtin and library functions."""
import operator as _op
import re as _re
from .values import *
from .state import *
from .state import conj
from .m_str import lift1, to_int, to_float, to_str, re_call, fmt_value
from . import m_str
from . import m_coll as C
from . import m_items as M
from . import m_lib as L
from . import m_ext as X

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def spread(I, st, args, node):
    """expand a trailing star argument when its elements are known"""
    out = []
    for a in args:
        if isinstance(a, tuple):
            es = I.entries(st, a[1], node)
            if es is None or any(e.g or e.many for e in es):
                return None
            out.extend(e.v for e in es)
        else:
            out.append(a)
    return out


def call_bi(I, st, f, args, kwargs, node):
    n = f.name
    if any(isinstance(a, tuple) for a in args) and n not in ('zip', 'itertools.product', 'itertools.chain', 'print', 'map', 'format'):
        sp = spread(I, st, args, node)
        if sp is None:
            if n.startswith('method:'):
                return Term('call', (f,) + tuple(a if isinstance(a, V) else Term('star', (a[1],)) for a in args))
            return X.external(I, st, n, args, kwargs, node)
        args = sp
    elif any(isinstance(a, tuple) for a in args):
        sp = spread(I, st, args, node)
        if sp is not None:
            args = sp
    h = TABLE.get(n)
    if h is not None:
        try:
            return h(I, st, list(args), dict(kwargs), node)
        except IndexError:
            I.raise_bi(st, 'TypeError', node, '%s(): missing argument' % n)
    from . import interp as ip
    if n in ip.EXC:
        o = st.new(Obj('inst', f, {'args': Tup([a for a in args if isinstance(a, V)])}, None, node))
        return o
    for pre, hh in PREFIX:
        if n.startswith(pre):
            return hh(I, st, n, list(args), dict(kwargs), node)
    if n == 'NotImplemented':
        I.raise_bi(st, 'TypeError', node, "'NotImplementedType' object is not callable")
    return X.external(I, st, n, args, kwargs, node)


# -------------------------------------------------------------- constructors

@reg('str')
def f_str(I, st, a, k, node):
    if not a:
        return Const('')
    if len(a) > 1 or k:
        return Term('decoded', tuple(st.simp(x) for x in a), 'str')
    return to_str(I, st, a[0], node)


@reg('repr', 'ascii')
def f_repr(I, st, a, k, node):
    return to_str(I, st, a[0], node, 'repr')


@reg('int')
def f_int(I, st, a, k, node):
    if not a:
        return Const(0)
    base = a[1] if len(a) > 1 else k.get('base')
    return to_int(I, st, a[0], node, base)


@reg('float')
def f_float(I, st, a, k, node):
    return to_float(I, st, a[0], node) if a else Const(0.0)


@reg('bool')
def f_bool(I, st, a, k, node):
    return I.truth(st, a[0], node) if a else FALSE


TABLE['list'] = L.b_list
TABLE['tuple'] = L.b_tuple
TABLE['set'] = L.b_set
TABLE['dict'] = L.b_dict
TABLE['range'] = L.b_range
TABLE['frozenset'] = lambda I, st, a, k, node: L.b_set(I, st, a, k, node, 'frozenset')
TABLE['collections.Counter'] = lambda I, st, a, k, node: L.b_dict(I, st, a, k, node, 'collections.Counter')
TABLE['collections.OrderedDict'] = lambda I, st, a, k, node: L.b_dict(I, st, a, k, node, 'collections.OrderedDict')
TABLE['collections.defaultdict'] = lambda I, st, a, k, node: L.b_dict(I, st, a, k, node, 'collections.defaultdict')
TABLE['collections.deque'] = L.b_list
TABLE['collections.namedtuple'] = lambda I, st, a, k, node: _nt(I, st, a, k, node)


def _nt(I, st, a, k, node):
    from . import models
    return models.b_namedtuple(I, st, a, k, node)


@reg('typing.NamedTuple')
def f_typed_nt(I, st, a, k, node):
    from . import models
    fields = [st.simp(e.v).items[0] for e in I.entries(st, a[1], node)]
    return models.b_namedtuple(I, st, [a[0], Tup(fields)], {}, node)


@reg('object')
def f_object(I, st, a, k, node):
    return st.new(Obj('inst', Bi('object'), {}, None, node))


@reg('len')
def f_len(I, st, a, k, node):
    return L.length(I, st, a[0], node)


for _n, _f in (('isinstance', L.b_isinstance), ('issubclass', L.b_issubclass), ('hasattr', L.b_hasattr), ('getattr', L.b_getattr),
               ('setattr', L.b_setattr), ('type', L.b_type), ('next', L.b_next), ('iter', L.b_iter), ('sum', L.b_sum),
               ('zip', L.b_zip), ('reversed', L.b_reversed), ('functools.reduce', L.b_reduce), ('itertools.product', L.b_product)):
    TABLE[_n] = _f


@reg('delattr')
def f_delattr(I, st, a, k, node):
    nm = st.resolve(st.simp(a[1]))
    if type(nm) is Const:
        I.del_attr(st, a[0], nm.v, node)
    return NONE


@reg('min')
def f_min(I, st, a, k, node):
    return L.b_minmax(I, st, a, k, node, True)


@reg('max')
def f_max(I, st, a, k, node):
    return L.b_minmax(I, st, a, k, node, False)


@reg('any')
def f_any(I, st, a, k, node):
    return L.b_anyall(I, st, a, k, node, True)


@reg('all')
def f_all(I, st, a, k, node):
    return L.b_anyall(I, st, a, k, node, False)


@reg('sorted')
def f_sorted(I, st, a, k, node):
    x = st.simp(a[0])
    if type(x) is Ite:
        return I.lift(st, x, lambda s, y: f_sorted(I, s, [y] + a[1:], k, node))
    es = I.entries(st, x, node)
    if es is None:
        return I.new_list_entries(st, [Entry(Term('elem', (Term('sorted', (x,)),)), (), True)])
    return I.new_list_entries(st, M.sort_entries(I, st, list(es), k.get('key', NONE), k.get('reverse', FALSE), node))


@reg('abs')
def f_abs(I, st, a, k, node):
    def one(s, x):
        if type(x) is Const:
            return Const(abs(x.v))
        lo, hi = interval(x)
        if lo >= 0:
            return x
        if hi <= 0:
            return n_neg(x)
        return Term('abs', (x,), ty_of(x), (0, max(abs(lo), abs(hi))))
    return lift1(I, st, a[0], one)


@reg('round', 'divmod', 'pow', 'chr', 'ord', 'hex', 'bin', 'oct', 'format', 'hash', 'id')
def f_dummy(I, st, a, k, node):
    raise AssertionError


def pure(name, fn, ty):
    def go(I, st, a, k, node):
        def one(s, xs):
            vals = X.const_args(s, xs)
            if vals is not None:
                try:
                    return X.from_py(I, s, fn(*vals))
                except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
                    I.raise_bi(s, type(e).__name__, node, str(e))
            return Term(name, tuple(s.resolve(x) for x in xs), ty)
        return X.lift_args(I, st, a, one)
    TABLE[name] = go


for _n, _f, _t in (('round', round, None), ('pow', pow, None), ('chr', chr, 'str'), ('ord', ord, 'int'), ('hex', hex, 'str'),
                   ('bin', bin, 'str'), ('oct', oct, 'str')):
    pure(_n, _f, _t)


@reg('bytes', 'bytearray')
def f_bytes(I, st, a, k, node):
    if not a:
        return Const(b'')
    if type(a[0]) is not tuple:
        v = st.resolve(st.simp(a[0]))
        if ty_of(v) == 'bytes':
            return v
        if type(v) in (Tup, Ref):
            es = I.entries(st, v, node)
            if es and not any(e.g or e.many for e in es):
                acc = Const(0)
                for e in es:
                    x = st.simp(e.v)
                    lo, hi = interval(x)
                    if ty_of(x) not in ('int', 'bool') or lo < 0 or hi > 255:
                        break
                    acc = C.binop(I, st, 'Add', C.binop(I, st, 'Mult', acc, Const(256), node), x, node)
                else:
                    return Term('bytes', (len(es), acc), 'bytes')
    return X.external(I, st, 'bytes', [x for x in a if type(x) is not tuple], k, node)


@reg('divmod')
def f_divmod(I, st, a, k, node):
    return Tup([C.binop(I, st, 'FloorDiv', a[0], a[1], node), C.binop(I, st, 'Mod', a[0], a[1], node)])


@reg('format')
def f_format(I, st, a, k, node):
    spec = st.resolve(a[1]).v if len(a) > 1 and type(st.resolve(a[1])) is Const else ''
    return fmt_value(I, st, a[0], None, spec, node)


@reg('hash')
def f_hash(I, st, a, k, node):
    def one(s, x):
        if type(x) is Ref and s.get(x.oid).kind == 'inst':
            m = I.find_user_method(s, x, '__hash__')
            if m is not None and m != NONE:
                return I.call(s, I.bind_attr(s, m, x, s.get(x.oid).cls, node), [], {}, node)
        if type(x) is Ref and s.get(x.oid).kind in ('list', 'dict', 'set') and s.get(x.oid).cls != Bi('frozenset'):
            I.raise_bi(s, 'TypeError', node, 'unhashable type')
        return Term('hash', (I.keyof(s, x, node),), 'int')
    return lift1(I, st, a[0], one)


@reg('id')
def f_id(I, st, a, k, node):
    return Term('id', (st.simp(a[0]),), 'int')


@reg('callable')
def f_callable(I, st, a, k, node):
    def one(s, x):
        if type(x) in (Bound, Bm):
            return TRUE
        if type(x) is Ref:
            o = s.get(x.oid)
            if o.kind in ('func', 'class', 'static', 'lru', 'partial', 'ctxfactory', 'getter'):
                return TRUE
            if o.kind == 'inst':
                return cbool(I.find_method(s, x, '__call__') is not None)
            return FALSE
        if type(x) in (Const, Tup):
            return FALSE
        return Term('callable', (x,), 'bool')
    return lift1(I, st, a[0], one)


@reg('dir', 'vars', 'globals', 'locals')
def f_dir(I, st, a, k, node):
    return Term('dir', tuple(a), 'list')


# ------------------------------------------------------------- descriptors

@reg('property', 'abc.abstractproperty')
def f_property(I, st, a, k, node):
    g = a[0] if a else k.get('fget')
    s = a[1] if len(a) > 1 else k.get('fset')
    d = a[2] if len(a) > 2 else k.get('fdel')
    z = [None if x is None or x == NONE else x for x in (g, s, d)]
    return st.new(Obj('prop', Bi('property'), {}, tuple(z)))


def wrapper(name, kind):
    def go(I, st, a, k, node):
        return st.new(Obj(kind, Bi(name), {}, a[0]))
    TABLE[name] = go


wrapper('staticmethod', 'static')
wrapper('classmethod', 'classm')
wrapper('functools.cached_property', 'cached')
wrapper('functools.cache', 'lru')
wrapper('contextlib.contextmanager', 'ctxfactory')


@reg('functools.lru_cache')
def f_lru(I, st, a, k, node):
    if a and type(a[0]) is Ref and st.get(a[0].oid).kind in ('func', 'static', 'classm'):
        return st.new(Obj('lru', Bi('functools.lru_cache'), {}, a[0]))
    return Bi('functools.cache')


@reg('functools.partial', 'functools.partialmethod')
def f_partial(I, st, a, k, node):
    return st.new(Obj('partial', Bi('functools.partial'), {}, (a[0], tuple(a[1:]), tuple(k.items()))))


@reg('functools.wraps')
def f_wraps(I, st, a, k, node):
    return Bi('identity')


@reg('functools.update_wrapper', 'identity', 'enum.unique', 'typing.final', 'typing.runtime_checkable', 'atexit.register')
def f_identity(I, st, a, k, node):
    return a[0]


@reg('functools.total_ordering')
def f_total(I, st, a, k, node):
    if type(a[0]) is Ref:
        st.w(a[0].oid).data.total = True
    return a[0]


@reg('functools.cmp_to_key')
def f_cmpkey(I, st, a, k, node):
    return Bi('functools.cmp_key')


@reg('abc.abstractmethod')
def f_abstract(I, st, a, k, node):
    if type(a[0]) is Ref:
        st.w(a[0].oid).attrs['__isabstractmethod__'] = TRUE
    return a[0]


@reg('enum.auto')
def f_auto(I, st, a, k, node):
    return Term('auto', ())


@reg('dataclasses.dataclass')
def f_dataclass(I, st, a, k, node):
    from . import models
    if a:
        return models.make_dataclass(I, st, a[0], k, node)
    return st.new(Obj('partial', Bi('functools.partial'), {}, (Bi('dataclasses.dataclass.'), (), tuple(k.items()))))


@reg('dataclasses.dataclass.')
def f_dataclass2(I, st, a, k, node):
    from . import models
    return models.make_dataclass(I, st, a[0], k, node)


@reg('dataclasses.field')
def f_field(I, st, a, k, node):
    return Term('dcfield', (k.get('default_factory', UNDEF), k.get('default', UNDEF)))


@reg('dataclasses.replace')
def f_replace(I, st, a, k, node):
    c = X.copy_value(I, st, a[0], False, node)
    if type(c) is Ref:
        for n, v in k.items():
            st.w(c.oid).attrs[n] = v
    return c


@reg('dataclass.eq')
def f_dceq(I, st, a, k, node):
    x, y = st.simp(a[0]), st.simp(a[1])
    if type(x) is Ref and type(y) is Ref and st.get(x.oid).cls == st.get(y.oid).cls:
        fs = st.get(st.get(x.oid).cls.oid).data.dataclass
        g = lambda r: Tup([st.get(r.oid).attrs.get(f, UNDEF) for f in fs])
        return C.eq_values(I, st, g(x), g(y), node)
    return Bi('NotImplemented')


@reg('dataclass.hash')
def f_dchash(I, st, a, k, node):
    return Term('hash', (I.keyof(st, a[0], node),), 'int')


@reg('super')
def f_super(I, st, a, k, node):
    return Super(a[0], st.simp(a[1]))


@reg('slice')
def f_slice(I, st, a, k, node):
    a = [NONE, a[0], NONE] if len(a) == 1 else (a + [NONE])[:3]
    return Term('slice', tuple(a), 'slice')


@reg('noop')
def f_noop(I, st, a, k, node):
    return NONE


@reg('print')
def f_print(I, st, a, k, node):
    a, k = X.materialise(I, st, a, k, node)
    I.emit('ext_call', st=st, name='print', args=a, kwargs=k, node=node, stack=list(I.stack))
    return NONE


@reg('copy.copy')
def f_copy(I, st, a, k, node):
    return X.copy_value(I, st, a[0], False, node)


@reg('copy.deepcopy')
def f_deepcopy(I, st, a, k, node):
    return X.copy_value(I, st, a[0], True, node)


@reg('ast.literal_eval')
def f_literal(I, st, a, k, node):
    return X.literal_eval(I, st, a[0], node)


@reg('argparse.Namespace')
def f_ns(I, st, a, k, node):
    at = {n: v for n, v in k.items() if n != '**'}
    if '**' in k:
        at['~open'] = TRUE
    return st.new(Obj('inst', Bi('argparse.Namespace'), at, None, node))


@reg('typing.cast')
def f_cast(I, st, a, k, node):
    return a[1]


@reg('typing.TypeVar', 'typing.NewType')
def f_typevar(I, st, a, k, node):
    return Bi('typing.Any')


# ------------------------------------------------------------ operator, ...

def op_call(I, st, n, a, k, node):
    fn = n[len('operator.'):]
    if fn in X.OPFUNCS:
        return C.binop(I, st, X.OPFUNCS[fn], a[0], a[1], node)
    if fn in X.CMPFUNCS:
        return C.compare(I, st, X.CMPFUNCS[fn], a[0], a[1], node)
    if fn in X.IOPFUNCS:
        return C.inplace(I, st, X.IOPFUNCS[fn], a[0], a[1], node)
    if fn in ('itemgetter', 'attrgetter'):
        return st.new(Obj('getter', Bi(n), {}, (fn[:4], tuple(st.resolve(st.simp(x)) for x in a))))
    if fn == 'methodcaller':
        return st.new(Obj('getter', Bi(n), {}, ('meth', ((st.resolve(a[0]).v, tuple(a[1:]), tuple(k.items())),))))
    if fn == 'contains':
        return C.contains(I, st, a[0], a[1], node)
    if fn == 'getitem':
        return M.get_item(I, st, a[0], a[1], node)
    if fn == 'setitem':
        M.set_item(I, st, a[0], a[1], a[2], node)
        return NONE
    if fn == 'not_':
        return t_not(I.truth(st, a[0], node))
    if fn == 'truth':
        return I.truth(st, a[0], node)
    if fn in ('neg', 'pos', 'invert', 'inv'):
        return C.unop(I, st, {'neg': 'USub', 'pos': 'UAdd'}.get(fn, 'Invert'), a[0], node)
    if fn == 'index':
        return a[0]
    return X.external(I, st, n, a, k, node)


def it_call(I, st, n, a, k, node):
    fn = n[len('itertools.'):]
    if fn in ('permutations', 'combinations', 'combinations_with_replacement'):
        return L.b_combinations(I, st, a, k, node, fn)
    if fn in ('starmap', 'filterfalse', 'takewhile', 'dropwhile', 'chain', 'count', 'repeat', 'groupby', 'accumulate', 'islice', 'cycle'):
        return L.lazy(I, st, n, a, node, **k)
    if fn == 'zip_longest':
        return L.b_zip(I, st, a, k, node)
    return X.external(I, st, n, a, k, node)


for _n in ('map', 'filter', 'enumerate', 'chain.from_iterable'):
    TABLE[_n] = (lambda q: lambda I, st, a, k, node: L.lazy(I, st, q, a, node, **k))(_n)


def math_pref(I, st, n, a, k, node):
    return X.math_call(I, st, n[5:], a, node)


def bisect_pref(I, st, n, a, k, node):
    return X.bisect_call(I, st, n[7:], a, node)


def re_pref(I, st, n, a, k, node):
    fn = n[3:]
    flags = k.get('flags', Const(0))
    if fn == 'compile':
        fl = a[1] if len(a) > 1 else flags
        fl = st.resolve(fl)
        return st.new(Obj('regex', Bi('re.Pattern'), {}, (st.resolve(st.simp(a[0])), fl.v if type(fl) is Const else 0), node))
    if fn == 'escape':
        return pure_call(I, st, 're.escape', _re.escape, a, 'str', node)
    p = st.simp(a[0])
    if type(p) is Ref and st.get(p.oid).kind == 'regex':
        from . import models
        return models.call_method(I, st, p, fn, a[1:], k, node)
    if type(p) is Ite:
        return I.lift(st, p, lambda s, x: re_pref(I, s, n, [x] + a[1:], k, node))
    p = st.resolve(p)
    from . import models
    if len(a) > 2 and fn in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
        flags = a[2]
    flags = st.resolve(flags)
    return models.regex_method(I, st, p, flags.v if type(flags) is Const else 0, fn, a[1:], k, node)


def pure_call(I, st, name, fn, a, ty, node):
    def one(s, xs):
        vals = X.const_args(s, xs)
        if vals is not None:
            return X.from_py(I, s, fn(*vals))
        return Term('ext', (name,) + tuple(xs), ty)
    return X.lift_args(I, st, a, one)


def struct_pref(I, st, n, a, k, node):
    return X.struct_call(I, st, n[7:], a, node)


@reg('bitstruct.compile')
def f_bitc(I, st, a, k, node):
    f = st.resolve(st.simp(a[0]))
    if type(f) is not Const:
        return X.external(I, st, 'bitstruct.compile', a, k, node)
    return st.new(Obj('bitstruct', Bi('bitstruct.CompiledFormat'), {}, X.parse_bits(f.v), node))


@reg('bitstruct.unpack')
def f_bitu(I, st, a, k, node):
    from . import models
    return models.call_method(I, st, f_bitc(I, st, a[:1], {}, node), 'unpack', a[1:], {}, node)


@reg('bitstruct.pack')
def f_bitp(I, st, a, k, node):
    from . import models
    return models.call_method(I, st, f_bitc(I, st, a[:1], {}, node), 'pack', a[1:], {}, node)


def strfun(name):
    def go(I, st, a, k, node):
        r = X.folded(I, st, name, a, k)
        if r is not None:
            return r
        X.external(I, st, name, a, k, node)
        return Term('ext', (name,) + tuple(st.simp(x) for x in a) + tuple(Tup([Const(q), v]) for q, v in sorted(k.items())), 'str')
    TABLE[name] = go


for _n in ('os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.abspath', 'os.path.realpath', 'os.getcwd',
           'os.path.normpath', 'shlex.quote', 'urllib.parse.unquote', 'urllib.parse.quote', 'html.escape', 'html.unescape',
           'os.fspath', 'base64.b64encode', 'textwrap.dedent'):
    strfun(_n)


class NotJson(Exception):
    pass


def json_frozen(I, st, v, node, depth=12):
    """immutable picture of a value as json sees it; None when unknown"""
    v = st.simp(v)
    t = type(v)
    if t is Const:
        if v.v is None or isinstance(v.v, (bool, int, float, str)):
            return v
        raise NotJson(v)
    if t is Ite:
        a, b = json_frozen(I, st, v.a, node, depth), json_frozen(I, st, v.b, node, depth)
        return None if a is None or b is None else ite(v.c, a, b)
    if t is Term:
        if v.ty in ('int', 'float', 'str', 'bool'):
            return v
        return None
    if not depth:
        return None
    if t is Tup:
        xs = [json_frozen(I, st, x, node, depth - 1) for x in v.items]
        return None if any(x is None for x in xs) else Tup((Const('list'),) + tuple(xs))
    if t is Ref:
        o = st.get(v.oid)
        kind = C.kind_of(I, st, v)
        if kind == 'list':
            es = I.entries(st, v, node)
            if es is None or any(e.g or e.many for e in es):
                return None
            xs = [json_frozen(I, st, e.v, node, depth - 1) for e in es]
            return None if any(x is None for x in xs) else Tup((Const('list'),) + tuple(xs))
        if kind == 'dict':
            xs = []
            for e in o.data.values():
                a, b = json_frozen(I, st, e.k, node, depth - 1), json_frozen(I, st, e.v, node, depth - 1)
                if e.g or a is None or b is None:
                    return None
                xs.append(Tup((a, b)))
            return Tup((Const('dict'),) + tuple(xs))
        if kind == 'set' or o.kind in ('inst', 'class', 'func', 'module', 'range', 'gen'):
            raise NotJson(v)
    return None


def json_thawed(I, st, v):
    t = type(v)
    if t is Tup:
        if v.items and v.items[0] == Const('dict'):
            return I.new_dict(st, [(x.items[0], json_thawed(I, st, x.items[1])) for x in v.items[1:]])
        return I.new_list(st, [json_thawed(I, st, x) for x in v.items[1:]])
    if t is Ite:
        if type(v.a) is Tup or type(v.b) is Tup:
            return ite(v.c, json_thawed(I, st, v.a), json_thawed(I, st, v.b))
    return v


def json_python(v):
    """the python value of a picture without unknowns; KeyError when it has some"""
    if type(v) is Const:
        return v.v
    if type(v) is Tup:
        if v.items[0] == Const('dict'):
            return {json_python(x.items[0]): json_python(x.items[1]) for x in v.items[1:]}
        return [json_python(x) for x in v.items[1:]]
    raise KeyError(v)


@reg('json.dumps')
def f_json_dumps(I, st, a, k, node):
    import json
    ks = {n: st.simp(v) for n, v in k.items()}
    if len(a) == 1 and isinstance(a[0], V) and not set(ks) - {'ensure_ascii', 'indent', 'separators', 'sort_keys', 'allow_nan'} and \
            all(type(v) is Const for v in ks.values()):
        try:
            f = json_frozen(I, st, a[0], node)
        except NotJson:
            I.raise_bi(st, 'TypeError', node, 'Object is not JSON serializable')
        if f is not None:
            try:
                return Const(json.dumps(json_python(f), **{n: v.v for n, v in ks.items()}))
            except (KeyError, TypeError, ValueError):
                return Term('json', (f,), 'str')
    X.external(I, st, 'json.dumps', a, k, node)
    return Term('ext', ('json.dumps',) + tuple(st.simp(x) for x in a) + tuple(Tup([Const(q), v]) for q, v in sorted(k.items())), 'str')


@reg('json.loads')
def f_json_loads(I, st, a, k, node):
    import json
    v = st.simp(a[0]) if len(a) == 1 and isinstance(a[0], V) and not k else None
    if type(v) is Ite:
        return I.lift(st, v, lambda s, x: f_json_loads(I, s, [x], {}, node))
    if type(v) is Const:
        if not isinstance(v.v, (str, bytes)):
            I.raise_bi(st, 'TypeError', node, 'the JSON object must be str')
        try:
            return X.from_py(I, st, json.loads(v.v))
        except ValueError:
            I.raise_bi(st, 'ValueError', node, 'not JSON')
    if type(v) is Term and v.op == 'json':
        return json_thawed(I, st, v.args[0])
    return X.external(I, st, 'json.loads', a, k, node)


def meth_pref(I, st, n, a, k, node):
    from . import models
    tname, name = n[7:].rsplit('.', 1)
    if name == '__new__':
        cref = st.simp(a[0])
        if tname == 'tuple':
            if type(cref) is Ref and st.get(cref.oid).data.nt:
                ci = st.get(cref.oid).data
                es = I.entries(st, a[1], node) if len(a) > 1 else []
                return Tup([e.v for e in es], cref)
            return L.b_tuple(I, st, a[1:], {}, node)
        if type(cref) is Ref and st.get(cref.oid).kind == 'class':
            am = I.abstract_methods(st, cref)
            if am:
                I.raise_bi(st, 'TypeError', node, "Can't instantiate abstract class")
            return I.alloc(st, cref, node)
        return call_bi(I, st, cref, a[1:], {}, node)
    if tname == 'dict' and name == 'fromkeys' and not (type(st.simp(a[0])) is Ref and C.kind_of(I, st, st.simp(a[0])) == 'dict' and len(a) > 1 and False):
        r = I.new_dict(st, [])
        es = I.entries(st, a[0], node)
        for e in es or []:
            C.dict_set(I, st, r, e.v, a[1] if len(a) > 1 else NONE, node, quiet=True)
        return r
    if tname in ('str', 'bytes') and name == 'maketrans':
        vals = X.const_args(st, a)
        if vals is not None:
            return X.from_py(I, st, str.maketrans(*vals))
        return Term('maketrans', tuple(a))
    if tname == 'int' and name == 'from_bytes':
        b = st.resolve(st.simp(a[0]))
        order = st.resolve(st.simp(a[1] if len(a) > 1 else k.get('byteorder', NONE)))
        if type(b) is Const and isinstance(b.v, bytes) and type(order) is Const and isinstance(order.v, str) and not k.get('signed'):
            return Const(int.from_bytes(b.v, order.v))
        if type(b) is Term and b.op == 'bytes' and order == Const('big') and not k.get('signed'):
            return b.args[1]
        return Term('from_bytes', tuple(st.simp(x) for x in a), 'int')
    if not a:
        I.raise_bi(st, 'TypeError', node, 'unbound method %s() needs an argument' % name)
    r = st.simp(a[0])
    if type(r) is Ref and st.get(r.oid).kind == 'class' and tname == 'object':
        return NONE
    return models.call_method(I, st, r, '!%s.%s' % (tname, name) if type(r) is Ref else name, a[1:], k, node)


def typing_pref(I, st, n, a, k, node):
    return Bi('typing.Any')


PREFIX = (('operator.', op_call), ('itertools.', it_call), ('math.', math_pref), ('bisect.', bisect_pref), ('re.', re_pref),
          ('struct.', struct_pref), ('method:', meth_pref), ('typing.', typing_pref))
