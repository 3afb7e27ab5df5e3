"""Everything the interpreter needs to know about the language runtime and
the libraries: attribute access, builtin calls, object construction."""
from .values import *
from .state import *
from .state import conj
from . import interp as _interp
from .m_str import *
from . import m_str
from .m_coll import *
import re
from . import m_coll as C
from .m_items import get_item, set_item, del_item, list_method, dict_method, set_method, METHODS, common
from . import m_items as M
from .m_lib import length, iter_lazy, BUILTIN_FUNCS, lazy
from . import m_lib as L
from . import m_ext as X
from .m_ext import ext_attr, external
from .m_call import call_bi


def EXC():
    return _interp.EXC


def install(I):
    b = {n: Bi(n) for n in BUILTIN_FUNCS}
    for n in EXC():
        b[n] = Bi(n)
    b['NotImplemented'] = Bi('NotImplemented')
    b['Ellipsis'] = Const(Ellipsis)
    b['__name__'] = Const('mahjong')
    b['__file__'] = Term('leaf', ('__file__',), 'str')
    I.builtins = b


def has_method(cls, name):
    return name in METHODS.get(cls, ())


def term_items(I, st, v):
    return M.term_seq(I, st, v)


def iter_bi(I, st, v, body, node):
    o = st.get(v.oid)
    if o.cls.name in EXC():
        try:
            I.raise_bi(st, 'TypeError', node, 'object is not iterable')
        except PathDead:
            return []
    if o.cls.name == XML:
        return I.iter_unknown(st, Term('elem', (v,)), body, node) if 'children' not in o.attrs else I.iterate(st, o.attrs['children'], body, node)
    return I.iter_unknown(st, Term('elem', (v,)), body, node)


XML = 'xml.etree.ElementTree.Element'


# -------------------------------------------------------------- attributes

def no_attr(I, st, v, name, node, default, what):
    if default is not None:
        return default
    I.raise_bi(st, 'AttributeError', node, '%s object has no attribute %r' % (what, name))


FUNC_ATTRS = {'__name__', '__qualname__', '__doc__', '__module__', '__wrapped__', '__dict__', '__annotations__', '__defaults__', '__code__'}


def obj_attr(I, st, v, o, name, node, default):
    k = o.kind
    if k in ('list', 'dict', 'set'):
        cls = o.cls.name if type(o.cls) is Bi else k
        if has_method(cls, name) or has_method(k, name):
            return Bm(v, name)
        if name == '__class__':
            return o.cls
        if name == 'default_factory':
            return o.attrs.get(name, NONE)
        return no_attr(I, st, v, name, node, default, cls)
    if k in ('func', 'lru', 'static', 'classm', 'ctxfactory', 'partial'):
        if name in o.attrs:
            return o.attrs[name]
        f = v
        while type(f) is Ref and st.get(f.oid).kind != 'func' and type(st.get(f.oid).data) is Ref:
            f = st.get(f.oid).data
        if name in ('__name__', '__qualname__') and st.get(f.oid).kind == 'func':
            return Const(getattr(st.get(f.oid).data.node, 'name', '<lambda>'))
        if name == '__wrapped__':
            return o.data
        if name in ('__func__', 'func'):
            return o.data[0] if k == 'partial' else o.data
        if name in ('cache_clear', 'cache_info'):
            return Bi('noop')
        if name == '__get__':
            return Bm(v, '__get__')
        if name in FUNC_ATTRS:
            return NONE
        return no_attr(I, st, v, name, node, default, 'function')
    if k == 'prop':
        if name in ('setter', 'getter', 'deleter'):
            return Bm(v, name)
        if name in ('fget', 'fset', 'fdel'):
            return o.data[('fget', 'fset', 'fdel').index(name)] or NONE
    if k == 'cached' and name == 'func':
        return o.data
    if k == 'match':
        if name in ('group', 'groups', 'groupdict', 'start', 'end', 'span', '__getitem__'):
            return Bm(v, name)
        if name == 'lastindex':
            return Const(len(o.data['groups']) - 1)
        return no_attr(I, st, v, name, node, default, 're.Match')
    if k == 'regex':
        if name in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'sub', 'subn', 'split'):
            return Bm(v, name)
        if name == 'pattern':
            return o.data[0]
    if k in ('gen', 'iter', 'lazy'):
        if name in ('__next__', '__iter__', 'close', 'send', 'throw', 'from_iterable'):
            return Bm(v, name)
        return no_attr(I, st, v, name, node, default, 'iterator')
    if k == 'range':
        if name in ('start', 'stop', 'step'):
            return o.data[('start', 'stop', 'step').index(name)]
        return Bm(v, name)
    if k == 'bitstruct':
        return Bm(v, name)
    if k == 'getter':
        return no_attr(I, st, v, name, node, default, 'getter')
    return Term('attr', (v, name))


def tuple_attr(I, st, v, name, node, default):
    if name in ('index', 'count', '__len__', '__getitem__', '__iter__', '__contains__', '__eq__', '__hash__', '__add__', '__ne__', '__lt__'):
        return Bm(v, name)
    if v.cls is not None and name in ('_asdict', '_replace', '_make'):
        return Bm(v, name)
    if v.cls is not None and name == '_fields':
        return Tup([Const(x) for x in st.get(v.cls.oid).data.nt])
    if name == '__class__':
        return v.cls if v.cls is not None else Bi('tuple')
    return no_attr(I, st, v, name, node, default, 'tuple')


INT_M = {'bit_length', 'to_bytes', 'real', 'imag', 'numerator', 'denominator', 'conjugate', 'bit_count'}
FLOAT_M = {'is_integer', 'hex', 'real', 'imag', 'as_integer_ratio', 'conjugate'}


def value_attr(I, st, v, name, node, default):
    t = type(v)
    if t is Tup:
        return tuple_attr(I, st, v, name, node, default)
    if t is Bi:
        return bi_attr(I, st, v, name, node, default)
    if t in (Bound, Bm):
        if name == '__self__':
            return v.self if t is Bound else v.recv
        if name == '__func__' and t is Bound:
            return v.f
        if t is Bound and type(v.f) is Ref:
            return I.get_attr(st, v.f, name, node, default)
        if name == '__name__':
            return Const(v.name)
        return no_attr(I, st, v, name, node, default, 'method')
    r = st.resolve(v)
    ty = ty_of(r)
    if name == '__class__':
        c = I.class_of(st, r)
        return c if c is not None else Term('type', (r,))
    if ty in ('str', 'bytes'):
        if name in m_str.NAMES or name in ('__len__', '__getitem__', '__contains__', '__eq__', '__add__', '__mod__', '__iter__', '__lt__'):
            return Bm(r, name)
        return no_attr(I, st, v, name, node, default, ty)
    if ty in ('int', 'bool') or ty == 'float':
        if name in (FLOAT_M if ty == 'float' else INT_M):
            return Bm(r, name) if name not in ('real', 'imag') else r
        if name.startswith('__') and name.endswith('__') and hasattr(int, name):
            return Bm(r, name)
        return no_attr(I, st, v, name, node, default, ty)
    if ty == 'NoneType':
        if name in ('__class__', '__doc__', '__eq__', '__str__', '__repr__'):
            return Bm(r, name)
        return no_attr(I, st, v, name, node, default, 'NoneType')
    if ty == 'list':
        return Bm(r, name)
    if ty == 'tuple' and name in ('index', 'count'):
        return Bm(r, name)
    if type(r) is Term and r.op == 'match':
        return Bm(r, name)
    if type(r) is Term and r.op == 'enum' and name in ('name', 'value'):
        return r.args[1] if name == 'value' else Term('attr', (r, name))
    return Term('attr', (r, name))


def bi_attr(I, st, v, name, node, default):
    n = v.name
    if name in ('__name__', '__qualname__'):
        return Const(n.split('.')[-1])
    if name == '__doc__':
        return NONE
    if n in METHODS and has_method(n, name):
        return Bi('method:%s.%s' % (n, name))
    if n in ('str', 'bytes') and (name in m_str.NAMES or name.startswith('__')):
        return Bi('method:%s.%s' % (n, name))
    if n in ('int', 'float', 'bool'):
        return Bi('method:%s.%s' % (n, name))
    if n == 'object' or n in EXC():
        return Bi('method:object.' + name)
    if n == 'tuple':
        return Bi('method:tuple.' + name)
    if n in ('itertools.chain',) and name == 'from_iterable':
        return Bi('chain.from_iterable')
    if n == 'NotImplemented' or n.startswith('method:'):
        return no_attr(I, st, v, name, node, default, n)
    if n in BUILTIN_FUNCS:
        return no_attr(I, st, v, name, node, default, n)
    return X.ext_attr(I, n, name)


def bi_inst_attr(I, st, v, o, name, node, default):
    n = o.cls.name
    if n in EXC():
        if name == 'args':
            return o.attrs.get('args', Tup(()))
        if name in ('__cause__', '__context__', '__traceback__'):
            return NONE
        if name == 'with_traceback':
            return Bm(v, name)
        return no_attr(I, st, v, name, node, default, n)
    if n == 'argparse.Namespace':
        if '~open' in o.attrs:
            return Term('attr', (v, name))
        return no_attr(I, st, v, name, node, default, 'Namespace')
    if n == XML:
        if name in ('get', 'items', 'keys', 'iter', 'find', 'findall', 'findtext', 'itertext', 'append'):
            return Bm(v, name)
        if name in ('text', 'tail'):
            return o.attrs.get(name, NONE)
        return no_attr(I, st, v, name, node, default, 'Element')
    if n == 'object':
        return no_attr(I, st, v, name, node, default, 'object')
    return Term('attr', (v, name))


# ---------------------------------------------------------------- methods

def call_method(I, st, recv, name, args, kwargs, node):
    recv = st.simp(recv)
    base = False
    if name.startswith('!'):
        base = True
        tname, name = name[1:].rsplit('.', 1)
    t = type(recv)
    if t is Ite:
        return I.lift(st, recv, lambda s, x: call_method(I, s, x, name, list(args), dict(kwargs), node))
    if t is Ref:
        o = st.get(recv.oid)
        k = o.kind
        pk = C.kind_of(I, st, recv)
        if base and tname == 'object':
            return object_method(I, st, recv, name, args, kwargs, node)
        if pk == 'list':
            return list_method(I, st, recv, name, args, kwargs, node)
        if pk == 'dict':
            r = dict_method(I, st, recv, name, args, kwargs, node)
            if '~of' in (st.get(recv.oid).attrs or {}):
                I.sync(st, recv, node)
            return r
        if pk == 'set':
            return set_method(I, st, recv, name, args, kwargs, node)
        if k == 'prop':
            g, s_, d = o.data
            if name == 'setter':
                return st.new(Obj('prop', Bi('property'), {}, (g, args[0], d)))
            if name == 'deleter':
                return st.new(Obj('prop', Bi('property'), {}, (g, s_, args[0])))
            return st.new(Obj('prop', Bi('property'), {}, (args[0], s_, d)))
        if k == 'match':
            if name == 'group' or name == '__getitem__':
                return m_str.match_group(I, st, o, args, node)
            if name == 'groups':
                return Tup(o.data['groups'][1:])
            if name == 'groupdict':
                return I.new_dict(st, [(Const(q), o.data['groups'][i]) for q, i in o.data['names'].items()])
            return Term('matchpos', (recv, name), 'int', (0, INF))
        if k == 'regex':
            return regex_method(I, st, o.data[0], o.data[1], name, args, kwargs, node)
        if k in ('gen', 'iter', 'lazy'):
            if name == '__next__':
                return L.b_next(I, st, [recv], {}, node)
            if name == '__iter__':
                return recv
            return NONE
        if k == 'range':
            if name == 'index':
                return L.lift1(I, st, args[0], lambda s, x: n_sub(x, o.data[0]) if ty_of(x) in NUM and o.data[2] == Const(1) else Term('index', (recv, x), 'int'))
            return Term('range.' + name, (recv,) + tuple(args))
        if k == 'bitstruct':
            if name == 'unpack':
                def un(s, b):
                    if type(b) is Const and isinstance(b.v, bytes) and len(b.v) == 2:
                        b = Term('bytes', (2, Const(int.from_bytes(b.v, 'big'))), 'bytes')
                    if type(b) is Term and b.op == 'bytes' and b.args[0] == 2:
                        return X.bits_unpack(I, s, o.data, b.args[1], node)
                    return X.bits_unpack(I, s, o.data, Term('unpacked', (b,), 'int', (0, 65535)), node)
                return lift1(I, st, args[0], un)
            if name == 'pack':
                return X.bits_pack(I, st, o.data, args, node)
        if k == 'class' and name == '_make' and o.data.nt:
            return Tup([e.v for e in I.entries(st, args[0], node)], recv)
        if k == 'inst' and type(o.cls) is Bi:
            return bi_inst_method(I, st, recv, o, name, args, kwargs, node)
        if k == 'func' and name == '__get__':
            return Bound(recv, args[0])
        if k == 'inst' and name in _interp.OBJECT_ATTRS | {'__init_subclass__'}:
            return object_method(I, st, recv, name, args, kwargs, node)
        if k == 'inst' and o.data is None and base:
            return object_method(I, st, recv, name, args, kwargs, node)
        return unknown_method(I, st, recv, name, args, kwargs, node)
    if t is Tup:
        return tuple_method(I, st, recv, name, args, kwargs, node)
    ty = ty_of(recv)
    if ty in ('str', 'bytes'):
        if name.startswith('__'):
            return scalar_dunder(I, st, recv, name, args, node)
        return str_method(I, st, recv, name, args, kwargs, node)
    if t is Const or ty in NUM:
        if name.startswith('__'):
            return scalar_dunder(I, st, recv, name, args, node)
        vals = X.const_args(st, args)
        if name == 'to_bytes' and ty in ('int', 'bool'):
            kw = X.const_args(st, [kwargs.get('length', Const(None)), kwargs.get('byteorder', Const(None)), kwargs.get('signed', Const(False))])
            n = (vals[0] if vals else kw[0]) if vals is not None and kw is not None else None
            order = (vals[1] if vals and len(vals) > 1 else kw[1]) if n is not None else None
            if isinstance(n, int) and (order == 'big' or n == 1 and order == 'little') and not kw[2]:
                lo, hi = interval(recv)
                if lo >= 1 << (8 * n) or hi < 0:
                    I.raise_bi(st, 'OverflowError', node, 'int too big to convert' if lo > 0 else "can't convert negative int to unsigned")
                return Term('bytes', (n, recv), 'bytes')
        if t is Const and vals is not None and hasattr(recv.v, name):
            try:
                return X.from_py(I, st, getattr(recv.v, name)(*vals))
            except (TypeError, ValueError) as e:
                I.raise_bi(st, type(e).__name__, node, str(e))
        return Term('m:' + name, (recv,) + tuple(a for a in args if isinstance(a, V)))
    if t is Term and recv.op == 'match':
        if name == 'group':
            return Term('group', (recv,) + tuple(args), 'str')
        return Term('m:' + name, (recv,) + tuple(args))
    return unknown_method(I, st, recv, name, args, kwargs, node)


def object_method(I, st, recv, name, args, kwargs, node):
    if name == '__setattr__':
        nm = st.resolve(st.simp(args[0]))
        if type(nm) is Const:
            I.emit('setattr', st=st, oid=recv.oid, name=nm.v, value=args[1], node=node, stack=list(I.stack))
            I.emit('mutate', st=st, oid=recv.oid, what='attribute ' + nm.v, node=node, stack=list(I.stack), name=nm.v)
            st.w(recv.oid).attrs[nm.v] = args[1]
        return NONE
    if name in ('__eq__', '__ne__'):
        a = st.simp(args[0])
        if a == recv:
            return cbool(name == '__eq__')
        return Bi('NotImplemented')
    if name == '__hash__':
        return Term('id', (recv,), 'int')
    if name == '__getattribute__':
        nm = st.resolve(st.simp(args[0]))
        return I.get_attr(st, recv, nm.v, node)
    if name in ('__str__', '__repr__'):
        return Term(name, (recv,), 'str')
    return NONE


def tuple_method(I, st, v, name, args, kwargs, node):
    if name == 'index':
        return M.seq_index(I, st, [Entry(x) for x in v.items], args[0], node, 'tuple')
    if name == 'count':
        tot = Const(0)
        for x in v.items:
            c = I.truth(st, eq_values(I, st, x, args[0], node), node)
            tot = num_add(tot, L.ite_num(c))
        return tot
    if name == '_asdict':
        return I.new_dict(st, [(Const(k), x) for k, x in zip(st.get(v.cls.oid).data.nt, v.items)], 'dict')
    if name == '_replace':
        nt = st.get(v.cls.oid).data.nt
        items = list(v.items)
        for k, x in kwargs.items():
            if k == '**':
                continue
            if k not in nt:
                I.raise_bi(st, 'ValueError', node, 'Got unexpected field names: %r' % [k])
            items[nt.index(k)] = x
        return Tup(items, v.cls)
    if name == '__getitem__':
        return get_item(I, st, v, args[0], node)
    if name == '__len__':
        return Const(len(v.items))
    if name == '__iter__':
        return L.b_iter(I, st, [v], {}, node)
    if name == '__contains__':
        return contains(I, st, v, args[0], node)
    if name == '__eq__':
        return eq_values(I, st, Tup(v.items), args[0], node)
    if name == '__ne__':
        return t_not(I.truth(st, eq_values(I, st, Tup(v.items), args[0], node)))
    if name == '__lt__':
        return lt_values(I, st, Tup(v.items), args[0], node)
    if name == '__hash__':
        return Term('hash', (Tup(v.items),), 'int')
    if name == '__add__':
        return binop(I, st, 'Add', Tup(v.items), args[0], node)
    if name in ('__repr__', '__str__'):
        return to_str(I, st, Tup(v.items, v.cls), node, 'repr') if v.cls is None else Term('repr', (v,), 'str')
    return unknown_method(I, st, v, name, args, kwargs, node)


def scalar_dunder(I, st, recv, name, args, node):
    ops = {v: k for k, v in C.DUNDER.items()}
    cmps = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}
    if name in ops:
        return binop(I, st, ops[name], recv, args[0], node)
    if name in cmps:
        return compare(I, st, cmps[name], recv, args[0], node)
    if name in ('__str__', '__repr__'):
        return to_str(I, st, recv, node, name.strip('_'))
    if name == '__len__':
        return length(I, st, recv, node)
    if name == '__getitem__':
        return get_item(I, st, recv, args[0], node)
    if name == '__contains__':
        return contains(I, st, recv, args[0], node)
    if name == '__hash__':
        return Term('hash', (recv,), 'int')
    return Term('m:' + name, (recv,) + tuple(a for a in args if isinstance(a, V)))


def regex_method(I, st, pat, flags, name, args, kwargs, node):
    if name in ('match', 'fullmatch', 'search'):
        return re_call(I, st, pat, name, args[0], node, flags)
    if name in ('finditer', 'findall', 'split', 'sub', 'subn') and type(pat) is Const:
        vals = X.const_args(st, args)
        kws = {k: st.simp(v) for k, v in kwargs.items()}
        if vals is not None and name in ('findall', 'split', 'sub') and all(type(v) is Const for v in kws.values()):
            return X.from_py(I, st, getattr(re.compile(pat.v, flags), name)(*vals, **{k: v.v for k, v in kws.items()}))
        if name == 'finditer':
            x = st.resolve(st.simp(args[0]))
            if type(x) is Const and isinstance(x.v, str):
                out = []
                rx = re.compile(pat.v, flags)
                for m in rx.finditer(x.v):
                    gs = [m.group(i) for i in range(rx.groups + 1)]
                    out.append(Entry(st.new(Obj('match', Bi('re.Match'), {}, {
                        'groups': [NONE if g is None else Const(g) for g in gs], 'names': dict(rx.groupindex)}, node))))
                return st.new(Obj('iter', Bi('iterator'), {}, {'entries': out, 'pos': 0}, node))
            return st.new(Obj('iter', Bi('iterator'), {}, {'entries': [Entry(Term('match', (pat, Const('iter'), x)), (), True)], 'pos': 0}, node))
        if name in ('sub', 'subn') and args:
            f = st.simp(args[0])
            if type(f) in (Ref, Bound):
                I.call(st, f, [Term('match', (pat, Const('sub'), st.simp(args[1])))], {}, node)
    args = list(args) + [Tup((Const(k), st.simp(v))) for k, v in sorted(kwargs.items()) if k not in ('string', 'repl')]
    return Term('re.' + name, (pat,) + tuple(st.simp(a) for a in args if isinstance(a, V)), 'list' if name in ('findall', 'split') else 'str')


def bi_inst_method(I, st, recv, o, name, args, kwargs, node):
    n = o.cls.name
    if n == XML:
        at = o.attrs.get('attrib')
        if name == 'get':
            return call_method(I, st, at, 'get', args, kwargs, node)
        if name in ('items', 'keys'):
            return call_method(I, st, at, name, args, kwargs, node)
        if name == 'iter':
            ch = o.attrs.get('children')
            es = [Entry(recv)] + (I.entries(st, ch, node) if ch is not None else [Entry(Term('elem', (recv,)), (), True)])
            return st.new(Obj('iter', Bi('iterator'), {}, {'entries': es, 'pos': 0}, node))
    if n in EXC():
        if name == 'with_traceback':
            return recv
        return object_method(I, st, recv, name, args, kwargs, node)
    if n == 'object':
        return object_method(I, st, recv, name, args, kwargs, node)
    return unknown_method(I, st, recv, name, args, kwargs, node)


CALLBACKS = {'apply', 'applymap', 'map', 'transform', 'agg', 'pipe', 'filter', 'then', 'each'}


def unknown_method(I, st, recv, name, args, kwargs, node):
    args, kwargs = X.materialise(I, st, args, kwargs, node)
    I.emit('ext_call', st=st, name='.' + name, recv=recv, args=args, kwargs=kwargs, node=node, stack=list(I.stack))
    h = I.intercepts.get('ext:.' + name)
    if h is not None:
        r = h(I, st, [recv] + list(args), kwargs, node)
        if r is not NotImplemented:
            return r
    flat = []
    for a in args:
        a = st.simp(a) if isinstance(a, V) else Term('star', (a[1],))
        if name in CALLBACKS and (type(a) is Bound or type(a) is Ref and st.get(a.oid).kind in ('func', 'lru', 'static')):
            f = a.f if type(a) is Bound else a
            if type(f) is Ref and st.get(f.oid).kind == 'func':
                p = st.get(f.oid).data.node.args
                k = max(0, len(p.args) - (1 if type(a) is Bound else 0) - len(p.defaults))
                a = I.call(st, a, [Term('elem', (recv,))] + [Term('elem', (recv, Const(i))) for i in range(1, k)] if k else [], {}, node)
        flat.append(a)
    return Term('call', (recv, name) + tuple(flat) + tuple(Tup([Const(k), v]) for k, v in sorted(kwargs.items())))


def call_unknown(I, st, f, args, kwargs, node):
    if type(f) is Term and f.op == 'attr':
        return unknown_method(I, st, f.args[0], f.args[1], args, kwargs, node)
    args, kwargs = X.materialise(I, st, args, kwargs, node)
    I.emit('ext_call', st=st, name='?', recv=f, args=args, kwargs=kwargs, node=node, stack=list(I.stack))
    return Term('call', (f, '()') + tuple(st.simp(a) if isinstance(a, V) else Term('star', (a[1],)) for a in args) +
                tuple(Tup([Const(k), v]) for k, v in sorted(kwargs.items())))


def call_obj(I, st, f, o, args, kwargs, node):
    if o.kind in ('list', 'dict', 'set', 'gen', 'iter', 'lazy', 'prop', 'match', 'regex', 'range', 'module'):
        I.raise_bi(st, 'TypeError', node, '%r object is not callable' % o.kind)
    if o.kind == 'classm':
        return I.call(st, o.data, args, kwargs, node)
    return call_unknown(I, st, f, args, kwargs, node)


def call_bi_inst(I, st, f, o, args, kwargs, node):
    return call_unknown(I, st, f, args, kwargs, node)


def call_getter(I, st, o, args, node):
    kind, keys = o.data
    out = []
    for k in keys:
        x = args[0]
        if kind == 'item':
            out.append(I.get_item(st, x, k, node))
        elif kind == 'attr':
            for part in k.v.split('.'):
                x = I.get_attr(st, x, part, node)
            out.append(x)
        else:
            name, a, kw = k
            out.append(I.call_method(st, x, name, list(a), dict(kw), node))
    return out[0] if len(out) == 1 else Tup(out)


# ------------------------------------------------- tuples and data classes

def make_nt(I, st, cref, ci, args, kwargs, node, direct=False):
    new = I.class_attr(st, cref, '__new__')
    if type(new) is Ref and not direct:
        if st.get(new.oid).kind == 'static':
            new = st.get(new.oid).data
        return I.call(st, new, [cref] + list(args), kwargs, node)
    args = list(args)
    if args and isinstance(args[-1], tuple):
        return Term('nt', (cref,) + tuple(a if isinstance(a, V) else Term('star', (a[1],)) for a in args))
    if len(args) > len(ci.nt):
        I.raise_bi(st, 'TypeError', node, '%s() takes %d positional arguments but %d were given' % (ci.name, len(ci.nt), len(args)))
    vals = dict(zip(ci.nt, args))
    star = kwargs.get('**')
    for k, v in kwargs.items():
        if k == '**':
            continue
        if k not in ci.nt:
            I.raise_bi(st, 'TypeError', node, '%s() got an unexpected keyword argument %r' % (ci.name, k))
        if k in vals:
            I.raise_bi(st, 'TypeError', node, '%s() got multiple values for argument %r' % (ci.name, k))
        vals[k] = v
    dflt = ci.nt_defaults or {}
    out = []
    for f in ci.nt:
        if f in vals:
            out.append(vals[f])
        elif f in dflt:
            out.append(dflt[f])
        elif star is not None:
            out.append(Term('kwitem', (star, Const(f))))
        else:
            I.raise_bi(st, 'TypeError', node, '%s() missing required argument %r' % (ci.name, f))
    return Tup(out, cref)


def b_namedtuple(I, st, args, kwargs, node):
    nm = st.resolve(st.simp(args[0]))
    f = st.simp(args[1] if len(args) > 1 else kwargs.get('field_names'))
    if type(f) is Const and isinstance(f.v, str):
        fields = f.v.replace(',', ' ').split()
    else:
        es = I.entries(st, f, node)
        fields = [e.v.v for e in es] if es is not None and all(type(e.v) is Const for e in es) else []
        fields = [x.strip() for x in fields]
    ren = kwargs.get('rename', FALSE)
    for i, x in enumerate(fields):
        if not x.isidentifier() or x.startswith('_') or x in fields[:i]:
            if ren == TRUE:
                fields[i] = '_%d' % i
            else:
                I.raise_bi(st, 'ValueError', node, 'invalid field name %r' % x)
    ref = I.make_class(st, nm.v if type(nm) is Const else '?', 'namedtuple.' + str(nm.v), [Bi('tuple')], {}, '?', None)
    ci = st.get(ref.oid).data
    ci.nt = tuple(fields)
    d = kwargs.get('defaults')
    if d is not None and d != NONE:
        ds = [e.v for e in I.entries(st, d, node)]
        ci.nt_defaults = dict(zip(fields[-len(ds):], ds))
    return ref


def ann_fields(node):
    import ast
    out = []
    for s in node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.append(s.target.id)
    return out


def typed_nt(I, st, ref):
    """class X(NamedTuple)"""
    ci = st.get(ref.oid).data
    ci.nt = tuple(ann_fields(ci.node))
    at = st.get(ref.oid).attrs
    ci.nt_defaults = {f: at[f] for f in ci.nt if f in at}
    w = st.w(ref.oid).attrs
    for f in ci.nt:
        w.pop(f, None)


def make_dataclass(I, st, ref, kwargs, node):
    ci = st.get(ref.oid).data
    fields = []
    for c in reversed(ci.mro):
        if type(c) is Ref:
            bi = st.get(c.oid).data
            if bi.dataclass and c is not ref:
                for f in bi.dataclass:
                    if f not in fields:
                        fields.append(f)
    for f in ann_fields(ci.node):
        if f not in fields:
            fields.append(f)
    ci.dataclass = fields
    at = st.w(ref.oid).attrs
    if '__eq__' not in at and kwargs.get('eq', TRUE) == TRUE:
        at['__eq__'] = Bi('dataclass.eq')
        at['__hash__'] = Bi('dataclass.hash') if kwargs.get('frozen') == TRUE else NONE
    return ref


def dataclass_init(I, st, obj, ci, args, kwargs, node):
    fields = list(ci.dataclass)
    vals = dict(zip(fields, args))
    if len(args) > len(fields):
        I.raise_bi(st, 'TypeError', node, '__init__() takes %d positional arguments' % len(fields))
    for k, v in kwargs.items():
        if k == '**':
            continue
        if k not in fields:
            I.raise_bi(st, 'TypeError', node, '__init__() got an unexpected keyword argument %r' % k)
        vals[k] = v
    cls = st.get(obj.oid).cls
    for f in fields:
        if f not in vals:
            d = I.class_attr(st, cls, f)
            if d is None:
                I.raise_bi(st, 'TypeError', node, '__init__() missing argument %r' % f)
            if type(d) is Term and d.op == 'dcfield':
                fac, dv = d.args
                vals[f] = I.call(st, fac, [], {}, node) if fac is not UNDEF else dv
            else:
                vals[f] = d
        st.w(obj.oid).attrs[f] = vals[f]
    m = I.find_user_method(st, obj, '__post_init__')
    if m is not None:
        I.call(st, Bound(m, obj), [], {}, node)
