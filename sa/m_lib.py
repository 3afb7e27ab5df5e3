"""Builtin functions, itertools and the other library pieces with a model."""
import re
from .values import *
from .state import *
from .state import conj
from .m_str import lift1, to_int, to_float, to_str, re_call, str_format
from . import m_str
from . import m_coll as C
from . import m_items as M

BUILTIN_FUNCS = {
    'str', 'int', 'float', 'bool', 'list', 'dict', 'set', 'frozenset', 'tuple', 'len', 'range', 'enumerate', 'zip', 'map', 'filter',
    'sorted', 'reversed', 'sum', 'min', 'max', 'any', 'all', 'abs', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr',
    'delattr', 'type', 'next', 'iter', 'print', 'input', 'open', 'chr', 'ord', 'repr', 'hash', 'id', 'dir', 'vars', 'callable',
    'round', 'pow', 'divmod', 'object', 'property', 'staticmethod', 'classmethod', 'slice', 'bytes', 'format', 'globals', 'locals',
    'super', 'bytearray', 'complex', 'hex', 'bin', 'oct', 'eval', 'exec', 'compile', '__import__', 'memoryview', 'ascii'}


def star_unknown(args):
    return bool(args) and isinstance(args[-1], tuple)


def settle(st, outs):
    ns = [(o[1], None) for o in outs if o[0] == 'n']
    if not ns:
        raise PathDead()
    m = merge_states(ns)[0] if len(ns) > 1 else ns[0][0]
    if m is not st:
        st.become(m)


def length(I, st, v, node):
    def one(s, x):
        t = type(x)
        if t is Const:
            try:
                return Const(len(x.v))
            except TypeError as e:
                I.raise_bi(s, 'TypeError', node, str(e))
        if t is Tup:
            return Const(len(x.items))
        if t is Ref:
            o = s.get(x.oid)
            if o.kind == 'inst':
                m = I.find_user_method(s, x, '__len__')
                if m is not None:
                    return I.call(s, I.bind_attr(s, m, x, o.cls, node), [], {}, node)
            k = C.kind_of(I, s, x)
            if k:
                es = list(o.data.values()) if k == 'dict' else (C.set_elems(I, s, o) if k == 'set' else o.data)
                if '~open' in o.attrs:
                    return Term('len', (x,), 'int', (0, INF))
                tot = []
                n = 0
                for e in es:
                    if getattr(e, 'many', False):
                        return Term('len', (tuple((q.v, getattr(q, 'g', ())) for q in es),), 'int', (0, INF))
                    c = s.simp(conj(e.g)) if e.g else TRUE
                    if c == TRUE:
                        n += 1
                    elif c != FALSE:
                        tot.append(ite_num(c))
                return C.sum_values([Const(n)] + tot)
            if o.kind == 'range' and all(type(q) is Const for q in o.data):
                return Const(len(range(*[q.v for q in o.data])))
            if o.kind == 'class' and o.data.enum:
                return Const(len(o.data.by_value))
            if o.kind in ('gen', 'lazy', 'iter', 'func', 'class', 'module') or o.kind == 'inst' and type(o.cls) is Ref and not I.has_ext_base(s, x):
                I.raise_bi(s, 'TypeError', node, 'object has no len()')
            return Term('len', (x,), 'int', (0, INF))
        if t is Term:
            vals = M.term_seq(I, s, x)
            if vals is not None:
                return Const(len(vals))
            if x.ty in ('int', 'float', 'bool', 'NoneType'):
                I.raise_bi(s, 'TypeError', node, 'object of type %r has no len()' % x.ty)
            return Term('len', (x,), 'int', (0, INF))
        return Term('len', (x,), 'int', (0, INF))
    return lift1(I, st, v, one)


def ite_num(c):
    if type(c) is Ite:
        return ite(c.c, ite_num(c.a), ite_num(c.b))
    if type(c) is Const:
        return Const(1 if c.v else 0)
    return ite(c, Const(1), Const(0))


def wrap_seq(I, st, args, node, kind):
    """list(x) / tuple(x) / set(x)"""
    if not args:
        return []
    x = st.simp(args[0])
    if type(x) is Term and M.term_seq(I, st, x) is None and x.ty in ('int', 'float', 'bool', 'NoneType'):
        I.raise_bi(st, 'TypeError', node, '%r object is not iterable' % x.ty)
    es = I.entries(st, x, node)
    return es


def b_list(I, st, args, kwargs, node):
    if not args:
        return I.new_list(st, [])
    x = st.simp(args[0])
    if type(x) is Ite:
        return I.lift(st, x, lambda s, y: b_list(I, s, [y], kwargs, node))
    es = wrap_seq(I, st, args, node, 'list')
    if es is None:
        return I.new_list_entries(st, [Entry(Term('elem', (x,)), (), True)])
    return I.new_list_entries(st, es)


def b_tuple(I, st, args, kwargs, node):
    if not args:
        return Tup(())
    x = st.simp(args[0])
    if type(x) is Tup:
        return Tup(x.items) if x.cls is not None else x
    if type(x) is Ite:
        return I.lift(st, x, lambda s, y: b_tuple(I, s, [y], kwargs, node))
    es = wrap_seq(I, st, args, node, 'tuple')
    if es is None:
        return Term('tuple', (x,), 'tuple')
    if any(e.g or e.many for e in es):
        return Term('tupseq', tuple((e.v, e.g) for e in es), 'tuple')
    return Tup([e.v for e in es])


def b_set(I, st, args, kwargs, node, cls='set'):
    r = st.new(Obj('set', Bi(cls), {}, []))
    if args:
        x = st.simp(args[0])
        if type(x) is Ite:
            return I.lift(st, x, lambda s, y: b_set(I, s, [y], kwargs, node, cls))
        if type(x) is Ref and C.kind_of(I, st, x) == 'set':
            st.w(r.oid).data = list(st.get(x.oid).data)
            return r
        es = wrap_seq(I, st, [x], node, 'set')
        if es is None:
            es = [Entry(Term('elem', (x,)), (), True)]
        for e in es:
            C.set_add(I, st, r, e.v, e.g, e.many)
    return r


def b_dict(I, st, args, kwargs, node, cls='dict'):
    r = st.new(Obj('dict', Bi(cls), {}, {}))
    args = list(args)
    if cls == 'collections.defaultdict':
        f = args.pop(0) if args else NONE
        st.w(r.oid).attrs['default_factory'] = f
    if cls == 'collections.Counter':
        if args or kwargs:
            C.counter_update(I, st, r, args[0] if args else None, kwargs, node, quiet=True)
        return r
    C.dict_update(I, st, r, args[0] if args else None, node, True, kwargs)
    return r


def b_range(I, st, args, kwargs, node):
    xs = [st.simp(a) for a in args]
    for i, x in enumerate(xs):
        if type(x) is Ite and not I.pure_scalar(x):
            return I.lift(st, x, lambda s, y: b_range(I, s, xs[:i] + [y] + xs[i + 1:], kwargs, node))
        if ty_of(x) in ('str', 'float', 'NoneType', 'tuple') or type(x) is Tup:
            I.raise_bi(st, 'TypeError', node, 'range() argument must be an integer')
        if type(x) is Ref and C.kind_of(I, st, x):
            I.raise_bi(st, 'TypeError', node, 'range() argument must be an integer')
    xs = [st.resolve(x) for x in xs]
    xs = [Const(int(x.v)) if type(x) is Const and isinstance(x.v, bool) else x for x in xs]
    if len(xs) == 1:
        d = (Const(0), xs[0], Const(1))
    elif len(xs) == 2:
        d = (xs[0], xs[1], Const(1))
    else:
        d = tuple(xs[:3])
    return st.new(Obj('range', Bi('range'), {}, d))


def b_isinstance(I, st, args, kwargs, node):
    v, c = st.simp(args[0]), st.simp(args[1])

    def one(s, x):
        cl = I.class_of(s, x)
        if cl is None:
            if type(x) is Term and x.op == 'enum':
                cl = x.args[0]
            else:
                return Term('isinstance', (x, c), 'bool')
        if c == Bi('type') and type(x) is Ref and s.get(x.oid).kind == 'class':
            return TRUE
        r = I.is_subclass(s, cl, c)
        if r is None:
            return Term('isinstance', (x if not isinstance(x, Ref) else cl, c), 'bool')
        return cbool(r)
    if type(v) is Ite and I.pure_scalar(v):
        return map_ite(v, lambda x: one(st, x))
    return lift1(I, st, v, one)


def b_issubclass(I, st, args, kwargs, node):
    r = I.is_subclass(st, st.simp(args[0]), args[1])
    return cbool(r) if r is not None else Term('issubclass', tuple(args), 'bool')


def b_hasattr(I, st, args, kwargs, node):
    name = st.resolve(st.simp(args[1]))

    def one(s, x):
        if type(name) is not Const:
            return Term('hasattr', (x, name), 'bool')
        outer = I.sinks
        sink = []
        I.sinks = outer + (sink,)
        q = s.copy()
        ok = True
        v = None
        ls, I.listeners = I.listeners, []
        try:
            v = I.get_attr(q, x, name.v, node)
        except PathDead:
            ok = False
        finally:
            I.sinks = outer
            I.listeners = ls
        if not ok:
            return FALSE
        if type(v) is Term and v.op == 'attr':
            return Term('hasattr', (x, name), 'bool')
        if sink:
            return Term('hasattr', (x, name), 'bool')
        return TRUE
    return lift1(I, st, args[0], one)


def b_getattr(I, st, args, kwargs, node):
    names = st.simp(args[1])

    def go(s, nm):
        nm = s.resolve(nm)
        if type(nm) is not Const:
            x = s.simp(args[0])
            if type(x) is Super:
                x = x.self
            return Term('getattr', (x, nm))
        if len(args) > 2:
            outer = I.sinks
            sink = []
            I.sinks = outer + (sink,)
            q = s.copy()
            alts = []
            try:
                v = I.get_attr(q, args[0], nm.v, node)
                alts.append((q, v))
            except PathDead:
                pass
            finally:
                I.sinks = outer
            for e_st, e in sink:
                if I.exc_matches(e_st, e, Bi('AttributeError')):
                    alts.append((e_st, args[2]))
                else:
                    I.sinks[-1].append((e_st, e))
            if not alts:
                raise PathDead()
            m, r = merge_states(alts)
            s.become(m)
            return r
        return I.get_attr(s, args[0], nm.v, node)
    return I.lift(st, names, go)


def b_setattr(I, st, args, kwargs, node):
    nm = st.resolve(st.simp(args[1]))
    if type(nm) is not Const:
        def all_attrs(s, x):
            if type(x) is Ref:
                o = s.w(x.oid)
                I.emit('mutate', st=s, oid=x.oid, what='attribute ?', node=node, stack=list(I.stack))
                o.attrs['~dyn'] = TRUE
            return NONE
        return I.lift(st, args[0], all_attrs)
    return I.lift(st, args[0], lambda s, x: I.set_attr(s, x, nm.v, args[2], node) or NONE)


def b_type(I, st, args, kwargs, node):
    if len(args) == 3:
        nm = st.resolve(args[0])
        ns = {}
        for k, v in C.dict_items(I, st, args[2]) or []:
            ns[k.v] = v
        return I.make_class(st, nm.v if type(nm) is Const else '?', 'dyn', [e.v for e in I.entries(st, args[1], node)], ns, '?', None)

    def one(s, x):
        c = I.class_of(s, x)
        return c if c is not None else Term('type', (x,))
    return lift1(I, st, args[0], one)


def first_of(I, st, it, node):
    """[(state, value or None)] first element of an iterable"""
    got = []

    def body(s, v):
        got.append((s, v))
        return [('brk', s, v)]
    outs = I.iterate(st, it, body, node)
    res = []
    for o in outs:
        if o[0] == 'brk':
            res.append((o[1], o[2]))
        elif o[0] == 'n':
            res.append((o[1], None))
    return res


def b_next(I, st, args, kwargs, node):
    def one(s, it):
        if type(it) is Ref:
            o = s.get(it.oid)
            if o.kind == 'inst' and type(o.cls) is Ref and I.find_method(s, it, '__next__') is not None:
                return guard_stop(I, s, lambda q: I.call_method(q, it, '__next__', [], {}, node), args, node)
            if o.kind in ('list', 'dict', 'set', 'range'):
                I.raise_bi(s, 'TypeError', node, 'object is not an iterator')
        alts = []
        for q, v in first_of(I, s, it, node):
            if v is None:
                if len(args) > 1:
                    alts.append((q, args[1]))
                else:
                    try:
                        I.raise_bi(q, 'StopIteration', node)
                    except PathDead:
                        pass
            else:
                if type(it) is Ref and q.get(it.oid).kind in ('gen', 'lazy'):
                    w = q.w(it.oid)
                    w.data = dict(w.data)
                    w.data['state'] = 'partial'
                alts.append((q, v))
        if not alts:
            raise PathDead()
        m, r = merge_states(alts)
        s.become(m)
        return s.simp(r)
    return lift1(I, st, args[0], one)


def guard_stop(I, st, fn, args, node):
    if len(args) < 2:
        return fn(st)
    outer = I.sinks
    sink = []
    I.sinks = outer + (sink,)
    alts = []
    q = st.copy()
    try:
        alts.append((q, fn(q)))
    except PathDead:
        pass
    finally:
        I.sinks = outer
    for s, e in sink:
        if I.exc_matches(s, e, Bi('StopIteration')):
            alts.append((s, args[1]))
        else:
            I.sinks[-1].append((s, e))
    if not alts:
        raise PathDead()
    m, r = merge_states(alts)
    st.become(m)
    return r


def b_iter(I, st, args, kwargs, node):
    def one(s, x):
        if type(x) is Ref:
            o = s.get(x.oid)
            if o.kind in ('gen', 'iter', 'lazy'):
                return x
            if o.kind == 'inst' and type(o.cls) is Ref:
                m = I.find_user_method(s, x, '__iter__')
                if m is not None:
                    return I.call(s, I.bind_attr(s, m, x, o.cls, node), [], {}, node)
        es = I.entries(s, x, node)
        if es is None:
            return s.new(Obj('iter', Bi('iterator'), {}, {'entries': [Entry(Term('elem', (x,)), (), True)], 'pos': 0}, node))
        return s.new(Obj('iter', Bi('iterator'), {}, {'entries': es, 'pos': 0}, node))
    return lift1(I, st, args[0], one)


def b_sum(I, st, args, kwargs, node):
    start = args[1] if len(args) > 1 else kwargs.get('start', Const(0))
    es = I.entries(st, args[0], node)
    if es is None:
        return Term('sum', (st.simp(args[0]),), None)
    if any(e.many for e in es):
        tys = {ty_of(e.v) for e in es}
        ty = tys.pop() if len(tys) == 1 else None
        lo = 0 if all(interval(e.v)[0] >= 0 for e in es) else -INF
        return Term('sumseq', tuple((e.v, e.g) for e in es), ty, (lo, INF))
    if all(ty_of(e.v) in NUM for e in es) and ty_of(start) in NUM:
        vs = [start]
        for e in es:
            c = conj(e.g) if e.g else TRUE
            v = C.as_num(e.v)
            vs.append(v if c == TRUE else ite(c, v, Const(0)) if type(c) is not Ite else gate(c, v, Const(0)))
        return C.sum_values(vs)
    acc = start
    for e in es:
        c = st.simp(conj(e.g)) if e.g else TRUE
        if c == FALSE:
            continue
        if c == TRUE:
            acc = C.binop(I, st, 'Add', acc, e.v, node)
        else:
            t, f = I.fork(st, c)
            alts = []
            if t is not None:
                alts.append((t, C.binop(I, t, 'Add', acc, e.v, node)))
            if f is not None:
                alts.append((f, acc))
            m, acc = merge_states(alts)
            st.become(m)
    return acc


def gate(c, a, b):
    if type(c) is Ite:
        return ite(c.c, gate(c.a, a, b), gate(c.b, a, b))
    return ite(c, a, b)


def b_minmax(I, st, args, kwargs, node, is_min):
    key = kwargs.get('key', NONE)
    name = 'min' if is_min else 'max'
    if len(args) == 1:
        es = I.entries(st, args[0], node)
        if es is None:
            return Term(name, (st.simp(args[0]),))
    else:
        es = [Entry(a) for a in args]
    if not es:
        if 'default' in kwargs:
            return kwargs['default']
        I.raise_bi(st, 'ValueError', node, '%s() arg is an empty sequence' % name)
    if any(e.g or e.many for e in es):
        # may be empty
        if not any(not e.g and not e.many for e in es):
            c = FALSE
            for e in es:
                c = I.c_or(c, conj(e.g) if not e.many else Term('nonempty', (e.v,), 'bool'))
            c = st.simp(c)
            if 'default' not in kwargs:
                t, f = I.fork(st, c)
                if f is not None:
                    try:
                        I.raise_bi(f, 'ValueError', node, '%s() arg is an empty sequence' % name)
                    except PathDead:
                        pass
                if t is None:
                    raise PathDead()
                if t is not st:
                    st.become(t)
        tys = {ty_of(e.v) for e in es}
        ty = tys.pop() if len(tys) == 1 else None
        ivs = [interval(e.v) for e in es]
        return Term(name + 'seq', tuple((e.v, e.g) for e in es), ty, (min(a for a, _ in ivs), max(b for _, b in ivs)) if ty in NUM else None)
    vals = [e.v for e in es]
    keys = [I.call(st, key, [v], {}, node) for v in vals] if key != NONE else vals
    best, bk = vals[0], keys[0]
    for v, k in zip(vals[1:], keys[1:]):
        c = I.truth(st, C.lt_values(I, st, k, bk, node) if is_min else C.lt_values(I, st, bk, k, node), node)
        if type(c) is Const:
            if c.v:
                best, bk = v, k
        else:
            if len(vals) > 6:
                ty = ty_of(best)
                ivs = [interval(x) for x in vals]
                return Term(name, tuple(sorted(vals, key=lambda q: getattr(q, 'n', -1))) if key == NONE else tuple(vals), ty,
                            ((min if is_min else max)(a for a, _ in ivs), (min if is_min else max)(b for _, b in ivs)) if key == NONE and ty in NUM else None)
            best = gate(c, v, best)
            bk = gate(c, k, bk)
    return best


def b_anyall(I, st, args, kwargs, node, is_any):
    """short-circuit evaluation over the iterable"""
    done = []

    def body(s, v):
        c = I.truth(s, v, node)
        t, f = I.fork(s, c)
        outs = []
        stop, go = (t, f) if is_any else (f, t)
        if stop is not None:
            outs.append(('brk', stop, cbool(is_any)))
        if go is not None:
            outs.append(('n', go, None))
        return outs
    outs = I.iterate(st, args[0], body, node)
    alts = []
    for o in outs:
        if o[0] == 'brk':
            alts.append((o[1], cbool(is_any)))
        elif o[0] == 'n':
            alts.append((o[1], cbool(not is_any)))
    if not alts:
        raise PathDead()
    m, r = merge_states(alts)
    if m is not st:
        st.become(m)
    return st.simp(r)


def b_zip(I, st, args, kwargs, node):
    cols = []
    for a in args:
        if isinstance(a, tuple):
            return st.new(Obj('iter', Bi('zip'), {}, {'entries': [Entry(Term('zip', (a[1],), 'tuple'), (), True)], 'pos': 0}, node))
        es = I.entries(st, a, node)
        if es is None:
            es = [Entry(Term('elem', (st.simp(a),)), (), True)]
        cols.append(es)
    if not cols:
        return st.new(Obj('iter', Bi('zip'), {}, {'entries': [], 'pos': 0}, node))
    out = []
    if any(e.many or e.g for es in cols for e in es):
        # sure prefix, then an unknown number of aligned tuples
        i = 0
        while all(i < len(es) and not es[i].many and not es[i].g for es in cols):
            out.append(Entry(Tup([es[i].v for es in cols])))
            i += 1
        if all(i < len(es) for es in cols):
            gs = {es[i].g for es in cols if es[i].g}
            if len(cols) and all(len(es) == len(cols[0]) for es in cols) and not any(e.many for es in cols for e in es) and \
                    all(len({es[j].g for es in cols}) == 1 for j in range(i, len(cols[0]))):
                for j in range(i, len(cols[0])):
                    out.append(Entry(Tup([es[j].v for es in cols]), cols[0][j].g))
            else:
                out.append(Entry(Tup([one_of(es[i:]) for es in cols]), (), True))
    else:
        for i in range(min(len(es) for es in cols)):
            out.append(Entry(Tup([es[i].v for es in cols])))
    return st.new(Obj('iter', Bi('zip'), {}, {'entries': out, 'pos': 0}, node))


def one_of(es):
    if len(es) == 1:
        return es[0].v
    return Term('oneof', tuple(e.v for e in es), M.same_ty(es))


# ------------------------------------------------------------ lazy iterators

def lazy(I, st, fn, args, node, **kw):
    return st.new(Obj('lazy', Bi(fn), {}, {'fn': fn, 'args': list(args), 'state': 'new', 'kw': kw}, node))


def iter_lazy(I, st, ref, body, node):
    d = st.get(ref.oid).data
    if d['state'] == 'done':
        return [('n', st, None)]
    if d['state'] in ('partial', 'unknown'):
        return I.iter_unknown(st, Term('elem', (ref,)), body, node)
    fn, args = d['fn'], d['args']
    if fn not in ('itertools.count', 'itertools.repeat', 'itertools.cycle'):
        w = st.w(ref.oid)
        w.data = dict(d)
        w.data['state'] = 'done'
    if fn == 'map':
        f = args[0]
        if len(args) == 2:
            return I.iterate(st, args[1], lambda s, v: body(s, I.call(s, f, [v], {}, node)), node)
        z = b_zip(I, st, args[1:], {}, node)
        return I.iterate(st, z, lambda s, v: body(s, I.call(s, f, list(v.items) if type(v) is Tup else [('*', v)], {}, node)), node)
    if fn == 'itertools.starmap':
        f = args[0]

        def sm(s, v):
            es = I.entries(s, v, node)
            if es is None or any(e.g or e.many for e in es):
                return body(s, I.call(s, f, [('*', v)], {}, node))
            return body(s, I.call(s, f, [e.v for e in es], {}, node))
        return I.iterate(st, args[1], sm, node)
    if fn in ('filter', 'itertools.filterfalse'):
        f = args[0]

        def fb(s, v):
            c = I.truth(s, v if f == NONE else I.call(s, f, [v], {}, node), node)
            if fn != 'filter':
                c = t_not(c)
            t, e = I.fork(s, c)
            outs = []
            if e is not None:
                outs.append(('n', e, None))
            if t is not None:
                r = body(t, v)
                outs.extend(r if r is not None else [('n', t, None)])
            return outs
        return I.iterate(st, args[1], fb, node)
    if fn in ('itertools.takewhile', 'itertools.dropwhile'):
        f = args[0]
        if fn == 'itertools.takewhile':
            mark = object()

            def tw(s, v):
                c = I.truth(s, I.call(s, f, [v], {}, node), node)
                t, e = I.fork(s, c)
                outs = []
                if e is not None:
                    outs.append(('brk', e, mark))
                if t is not None:
                    r = body(t, v)
                    outs.extend(r if r is not None else [('n', t, None)])
                return outs
            outs = I.iterate(st, args[1], tw, node)
            return I._merge_normals([('n', o[1], None) if o[0] == 'brk' and o[2] is mark else o for o in outs])
        es = I.entries(st, args[1], node) or []
        drop = TRUE
        out = []
        for e in es:
            c = I.truth(st, I.call(st, f, [e.v], {}, node), node)
            drop = I.c_and(drop, c)
            g = st.simp(I.c_and(t_not(drop), conj(e.g)))
            if g != FALSE:
                out.append(Entry(e.v, C.glits(g), e.many))
        return I.iter_entries(st, out, body, node)
    if fn == 'enumerate':
        start = d['kw'].get('start') or Const(0)
        st.w(ref.oid).attrs['n'] = start
        depth = len(I.loops)

        def eb(s, v):
            n = s.simp(s.get(ref.oid).attrs['n'])
            if len(I.loops) > depth and type(v) is Term and v.op in ('elem', 'elem2'):
                idx = Term('pos', (v,), 'int', (0, INF))
            else:
                idx = n
                s.w(ref.oid).attrs['n'] = C.num_add(n, Const(1))
            return body(s, Tup([idx, v]))
        return I.iterate(st, args[0], eb, node)
    if fn == 'itertools.chain':
        outs = []
        for a in args:
            r = I.iterate(st, a, body, node)
            st = None
            for o in r:
                if o[0] == 'n':
                    st = o[1]
                else:
                    outs.append(o)
            if st is None:
                return outs
        return outs + [('n', st, None)]
    if fn == 'chain.from_iterable':
        return I.iterate(st, args[0], lambda s, v: I.iterate(s, v, body, node), node)
    if fn == 'itertools.count':
        outs = []
        a = args[0] if args else Const(0)
        step = args[1] if len(args) > 1 else Const(1)
        vals = [a, C.num_add(a, step)]
        for v in vals:
            st = I.run_body(st, v, body, outs)
            if st is None:
                return outs
        u = fresh('count', 'int')
        u.rng = (interval(vals[1])[0] + 1, INF)
        I.run_body(st, u, body, outs)
        return outs
    if fn == 'itertools.repeat':
        if len(args) > 1 and type(st.resolve(st.simp(args[1]))) is Const:
            n = st.resolve(st.simp(args[1])).v
            return I.iter_values(st, [args[0]] * min(max(n, 0), 400), body)
        return I.iter_unknown(st, args[0], body, node)
    if fn == 'itertools.groupby':
        return iter_groupby(I, st, args[0], args[1] if len(args) > 1 else d['kw'].get('key') or NONE, body, node)
    if fn == 'itertools.accumulate':
        es = I.entries(st, args[0], node)
        if es is None or any(e.g or e.many for e in es):
            return I.iter_unknown(st, Term('accumulate', (ref,)), body, node)
        out = []
        acc = d['kw'].get('initial')
        if acc is not None and acc != NONE:
            out.append(acc)
        else:
            acc = None
        for e in es:
            if acc is None:
                acc = e.v
            elif len(args) > 1:
                acc = I.call(st, args[1], [acc, e.v], {}, node)
            else:
                acc = C.binop(I, st, 'Add', acc, e.v, node)
            out.append(acc)
        return I.iter_values(st, out, body)
    if fn == 'itertools.islice':
        es = I.entries(st, args[0], node) if not infinite(I, st, args[0]) else None
        ks = [st.resolve(st.simp(a)) for a in args[1:]]
        if es is not None and all(type(k) is Const for k in ks) and all(not e.g and not e.many for e in es):
            sl = slice(*[k.v for k in ks]) if len(ks) > 1 else slice(ks[0].v)
            return I.iter_entries(st, es[sl], body, node)
        if es is not None:
            return I.iter_entries(st, [Entry(e.v, e.g, True) for e in es], body, node)
    return I.iter_unknown(st, Term('elem', (ref,)), body, node)


def infinite(I, st, v):
    return type(v) is Ref and st.get(v.oid).kind == 'lazy' and st.get(v.oid).data['fn'] in ('itertools.count', 'itertools.cycle')


def iter_groupby(I, st, it, key, body, node):
    es = I.entries(st, it, node)
    if es is None:
        it = st.simp(it)
        x = Term('elem', (it,))
        k = I.call(st, key, [x], {}, node) if key != NONE else x
        g = I.new_list_entries(st, [Entry(x, (), True)])
        return I.iter_unknown(st, Tup([k, g]), body, node)
    keys = []
    for e in es:
        keys.append(st.simp(I.call(st, key, [e.v], {}, node)) if key != NONE else e.v)
    runs = []
    ok = not any(e.many for e in es)
    for e, k in zip(es, keys):
        if runs:
            c = I.truth(st, C.eq_values(I, st, runs[-1][0], k, node), node)
            if c == TRUE:
                runs[-1][1].append(e)
                continue
            if c != FALSE:
                ok = False
                break
        runs.append((k, [e]))
    if ok and any(e.g for e in es):
        for i in range(len(runs)):
            for j in range(i + 2, len(runs)):
                if I.truth(st, C.eq_values(I, st, runs[i][0], runs[j][0], node), node) != FALSE:
                    ok = False
    if ok:
        out = []
        for k, g in runs:
            c = FALSE
            for e in g:
                c = I.c_or(c, conj(e.g))
            it2 = st.new(Obj('iter', Bi('itertools._grouper'), {}, {'entries': list(g), 'pos': 0}, node))
            out.append(Entry(Tup([k, it2]), C.glits(st.simp(c))))
        return I.iter_entries(st, out, body, node)
    I.emit('groupby_undecided', st=st, entries=es, keys=keys, node=node)
    k = keys[0] if len({repr(x) for x in keys}) == 1 else Term('oneof', tuple(keys), ty_of(keys[0]))
    g = st.new(Obj('iter', Bi('itertools._grouper'), {}, {'entries': [Entry(e.v, e.g, True) for e in es], 'pos': 0}, node))
    return I.iter_unknown(st, Tup([k, g]), body, node)


def b_product(I, st, args, kwargs, node):
    rep = st.resolve(st.simp(kwargs.get('repeat', Const(1))))
    cols = []
    for a in args:
        es = I.entries(st, a, node)
        if es is None:
            es = [Entry(Term('elem', (st.simp(a),)), (), True)]
        cols.append(es)
    if type(rep) is Const:
        cols = cols * rep.v
        n = 1
        for c in cols:
            n *= len(c)
        if n <= 2500:
            out = [((), (), False)]
            for c in cols:
                out = [(vs + (e.v,), g + tuple(x for x in e.g if x not in g), m or e.many) for vs, g, m in out for e in c]
            return st.new(Obj('iter', Bi('itertools.product'), {}, {'entries': [Entry(Tup(v), g, m) for v, g, m in out], 'pos': 0}, node))
        x = Tup([one_of(c) for c in cols])
    else:
        x = Term('prod', tuple(one_of(c) for c in cols) + (rep,), 'tuple')
    return st.new(Obj('iter', Bi('itertools.product'), {}, {'entries': [Entry(x, (), True)], 'pos': 0}, node))


def b_combinations(I, st, args, kwargs, node, fn):
    import itertools
    es = I.entries(st, args[0], node)
    r = st.resolve(st.simp(args[1])) if len(args) > 1 else NONE
    if es is not None and all(not e.g and not e.many for e in es) and type(r) is Const and len(es) <= 12:
        f = getattr(itertools, fn)
        out = [Entry(Tup(p)) for p in f([e.v for e in es], *([r.v] if r.v is not None else []))]
        if len(out) <= 2500:
            return st.new(Obj('iter', Bi(fn), {}, {'entries': out, 'pos': 0}, node))
    return st.new(Obj('iter', Bi(fn), {}, {'entries': [Entry(Term(fn, (st.simp(args[0]), r), 'tuple'), (), True)], 'pos': 0}, node))


def b_reversed(I, st, args, kwargs, node):
    x = st.simp(args[0])
    if type(x) is Ref and st.get(x.oid).kind == 'inst':
        m = I.find_user_method(st, x, '__reversed__')
        if m is not None:
            return I.call(st, Bound(m, x), [], {}, node)
    if type(x) is Ref and st.get(x.oid).kind in ('gen', 'lazy', 'iter', 'set'):
        I.raise_bi(st, 'TypeError', node, 'object is not reversible')
    es = I.entries(st, x, node)
    if es is None:
        es = [Entry(Term('elem', (x,)), (), True)]
    return st.new(Obj('iter', Bi('reversed'), {}, {'entries': list(reversed(es)), 'pos': 0}, node))


def b_reduce(I, st, args, kwargs, node):
    f = args[0]
    has_init = len(args) > 2
    cell = st.new(Obj('cell', None, {'v': args[2] if has_init else UNDEF}, None))

    def body(s, v):
        cur = s.simp(s.get(cell.oid).attrs['v'])

        def step(q, c):
            r = v if c is UNDEF else I.call(q, f, [c, v], {}, node)
            return r
        s.w(cell.oid).attrs['v'] = I.lift(s, cur, step)
        return None
    settle(st, I.iterate(st, args[1], body, node))
    r = st.simp(st.get(cell.oid).attrs['v'])

    def fin(s, x):
        if x is UNDEF:
            I.raise_bi(s, 'TypeError', node, 'reduce() of empty sequence with no initial value')
        return x
    return I.lift(st, r, fin)
