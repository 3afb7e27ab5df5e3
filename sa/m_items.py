"""Subscription and the methods of lists, dictionaries, counters and sets."""
from .values import *
from .state import *
from .state import conj
from .m_str import lift1
from . import m_coll as C


# ------------------------------------------------------------ subscripts

def slice_bounds(st, k):
    out = []
    for x in k.args:
        x = st.resolve(st.simp(x))
        if type(x) is not Const:
            return None
        out.append(x.v)
    return slice(*out)


def get_item(I, st, v, k, node):
    v = st.simp(v)
    if type(v) is Ite:
        return I.lift(st, v, lambda s, x: get_item(I, s, x, k, node))
    if type(k) is Term and k.op == 'slice':
        return get_slice(I, st, v, k, node)
    t = type(v)
    if t is Ref:
        o = st.get(v.oid)
        if o.kind == 'class':
            return class_item(I, st, v, o, k, node)
        if o.kind == 'inst':
            m = I.find_user_method(st, v, '__getitem__')
            if m is not None:
                return I.call(st, I.bind_attr(st, m, v, o.cls, node), [k], {}, node)
        kd = C.kind_of(I, st, v)
        if kd == 'dict':
            k = st.simp(k)
            return dict_item(I, st, v, k, node)
        if kd == 'list':
            return list_item(I, st, v, o, k, node)
        if o.kind == 'range':
            k = st.resolve(st.simp(k))
            if all(type(x) is Const for x in o.data) and type(k) is Const:
                try:
                    return Const(range(*[x.v for x in o.data])[k.v])
                except IndexError:
                    I.raise_bi(st, 'IndexError', node, 'range index out of range')
            return Term('item', (v, k), 'int')
        if o.kind == 'match':
            from . import m_str
            return m_str.match_group(I, st, o, [k], node)
        if kd == 'set' or o.kind in ('func', 'gen', 'iter', 'lazy', 'prop', 'getter'):
            I.raise_bi(st, 'TypeError', node, 'object is not subscriptable')
        if o.kind == 'inst' and type(o.cls) is Ref and not I.has_ext_base(st, v):
            I.raise_bi(st, 'TypeError', node, 'object is not subscriptable')
        return Term('item', (v, k))
    if t is Tup:
        return seq_item(I, st, list(v.items), k, node, 'tuple', v)
    if t is Const:
        if isinstance(v.v, str):
            return seq_item(I, st, [Const(c) for c in v.v], k, node, 'string', v)
        if isinstance(v.v, bytes):
            return seq_item(I, st, [Const(c) for c in v.v], k, node, 'bytes', v)
        I.raise_bi(st, 'TypeError', node, '%r object is not subscriptable' % type(v.v).__name__)
    if t is Bi:
        return v
    if t is Term:
        vals = term_seq(I, st, v)
        if vals is not None:
            return seq_item(I, st, vals, k, node, 'sequence', v)
        if v.ty in ('int', 'float', 'bool', 'NoneType'):
            I.raise_bi(st, 'TypeError', node, '%r object is not subscriptable' % v.ty)
        k = st.simp(k)
        return map_ite(k, lambda x: Term('item', (v, st.resolve(x)), 'str' if v.ty == 'str' else None))
    return Term('item', (v, k))


def term_seq(I, st, v):
    if v.op == 'seq':
        return list(v.args)
    return None


def seq_item(I, st, vals, k, node, what, whole):
    def one(s, x):
        x = s.resolve(x)
        if type(x) is Const:
            if isinstance(x.v, bool):
                x = Const(int(x.v))
            if not isinstance(x.v, int):
                I.raise_bi(s, 'TypeError', node, '%s indices must be integers, not %s' % (what, type(x.v).__name__))
            if -len(vals) <= x.v < len(vals):
                return vals[x.v]
            I.raise_bi(s, 'IndexError', node, '%s index out of range' % what)
        if ty_of(x) in ('str', 'NoneType', 'float', 'tuple') or type(x) is Tup:
            I.raise_bi(s, 'TypeError', node, '%s indices must be integers' % what)
        if type(x) is Ref:
            o = s.get(x.oid)
            if o.kind == 'inst' and type(o.cls) is Ref and not I.has_ext_base(s, x) and I.find_user_method(s, x, '__index__') is None:
                I.raise_bi(s, 'TypeError', node, '%s indices must be integers' % what)
        return sym_item(I, s, vals, x, whole)
    return lift1(I, st, k, one)


def sym_item(I, st, vals, x, whole):
    """element at an undecided index"""
    if vals and all(v == vals[0] for v in vals):
        return vals[0]
    lo, hi = interval(x)
    if type(x) is Term and ty_of(x) in ('int', 'bool') and lo >= 0 and hi - lo <= 3 and hi < len(vals):
        r = vals[int(hi)]
        for i in range(int(hi) - 1, int(lo) - 1, -1):
            r = ite(C.eq_values(I, st, x, Const(i), None), vals[i], r)
        return r
    tys = {ty_of(v) for v in vals}
    ty = tys.pop() if len(tys) == 1 else None
    rng = None
    if ty in ('int', 'bool') and all(type(v) is Const for v in vals):
        ns = [v.v for v in vals]
        if ns and list(range(ns[0], ns[0] + len(ns))) == ns and ty == 'int':
            return n_add(x, Const(ns[0]))
        if ns:
            rng = (min(ns), max(ns))
    return Term('index', (Tup(vals), x), ty, rng)


def list_item(I, st, ref, o, k, node):
    es = o.data
    if all(not e.g and not e.many for e in es):
        return seq_item(I, st, [e.v for e in es], k, node, 'list', ref)

    def one(s, x):
        x = s.resolve(x)
        if type(x) is Const and isinstance(x.v, int):
            i = x.v
            if i >= 0:
                # fork over presence: the i-th present element
                return nth(I, s, es, i, ref, node)
            return nth(I, s, list(reversed(es)), -1 - i, ref, node)
        if ty_of(x) in ('str', 'NoneType', 'float', 'tuple'):
            I.raise_bi(s, 'TypeError', node, 'list indices must be integers')
        return Term('listitem', (tuple((e.v, e.g) for e in es), x), same_ty(es))
    return lift1(I, st, k, one)


def same_ty(es):
    tys = {ty_of(e.v) for e in es}
    return tys.pop() if len(tys) == 1 else None


def nth(I, st, es, i, ref, node):
    if not es:
        I.raise_bi(st, 'IndexError', node, 'list index out of range')
    e = es[0]
    if e.many:
        return Term('listitem', (tuple((x.v, x.g) for x in es), Const(i)), same_ty(es))
    c = st.simp(conj(e.g))
    if c == TRUE:
        return e.v if i == 0 else nth(I, st, es[1:], i - 1, ref, node)
    if c == FALSE:
        return nth(I, st, es[1:], i, ref, node)
    t, f = I.fork(st, c)
    alts = []
    for s, rest, j in ((t, None, i), (f, es[1:], i)):
        if s is None:
            continue
        try:
            if rest is None:
                alts.append((s, e.v if i == 0 else nth(I, s, es[1:], i - 1, ref, node)))
            else:
                alts.append((s, nth(I, s, rest, i, ref, node)))
        except PathDead:
            pass
    if not alts:
        raise PathDead()
    m, r = merge_states(alts)
    st.become(m)
    return st.simp(r)


def get_slice(I, st, v, k, node):
    b = slice_bounds(st, k)
    t = type(v)
    if t is Ref:
        kd = C.kind_of(I, st, v)
        o = st.get(v.oid)
        if o.kind == 'inst' and I.find_user_method(st, v, '__getitem__') is not None:
            return I.call_method(st, v, '__getitem__', [k], {}, node)
        if kd == 'list':
            es = o.data
            if b is not None:
                sure = all(not e.g and not e.many for e in es)
                if sure or (b.start in (None, 0) and b.stop is None):
                    return I.new_list_entries(st, es[b])
                if b.step in (None, 1) and b.start is not None and b.start > 0 and b.stop is None and all(not e.g and not e.many for e in es[:b.start]):
                    return I.new_list_entries(st, es[b])
                if b.step in (None, 1) and b.start is None and b.stop is not None and b.stop >= 0 and len(es) >= b.stop and all(not e.g and not e.many for e in es[:b.stop]):
                    return I.new_list_entries(st, es[b])
                return I.new_list_entries(st, [Entry(e.v, e.g, True) for e in es])
            return sym_slice(I, st, [e for e in es], k, node, v)
        if o.kind == 'range' and b is not None and all(type(x) is Const for x in o.data):
            r = range(*[x.v for x in o.data])[b]
            return st.new(Obj('range', Bi('range'), {}, (Const(r.start), Const(r.stop), Const(r.step))))
        return Term('item', (v, k))
    if t is Tup:
        if b is not None:
            return Tup(v.items[b])
        return Term('item', (v, k))
    if t is Const and isinstance(v.v, (str, bytes)):
        if b is not None:
            return Const(v.v[b])
        return Term('item', (v, k), ty_of(v))
    if t is Term:
        vals = term_seq(I, st, v)
        if vals is not None and b is not None:
            return I.new_list(st, vals[b])
        if v.op == 'cat' and b is not None and b.step in (None, 1):
            r = cat_slice(v, b)
            if r is not None:
                return r
        return Term('item', (v, k), v.ty if v.ty in ('str', 'bytes', 'list') else None)
    if t is Const:
        I.raise_bi(st, 'TypeError', node, 'object is not subscriptable')
    return Term('item', (v, k))


def sym_slice(I, st, es, k, node, whole):
    """list slice with undecided bounds over a known list"""
    lo, hi, step = [st.resolve(st.simp(x)) for x in k.args]
    sure = all(not e.g and not e.many for e in es)
    if sure and step in (NONE, Const(1)) and len(es) <= 64:
        def inside(i):
            c = TRUE
            if lo != NONE:
                if interval(lo)[0] < 0:
                    return None
                c = I.c_and(c, t_not(n_lt(Const(i), lo)) if type(lo) is not Ite else map_ite(lo, lambda x: t_not(n_lt(Const(i), x))))
            if hi != NONE:
                if interval(hi)[0] < 0:
                    return None
                c = I.c_and(c, map_ite(hi, lambda x: n_lt(Const(i), x)))
            return st.simp(c)
        if all(x == NONE or ty_of(x) in NUM for x in (lo, hi)):
            out = []
            for i, e in enumerate(es):
                c = inside(i)
                if c is None:
                    break
                if c != FALSE:
                    out.append(Entry(e.v, C.glits(c)))
            else:
                return I.new_list_entries(st, out)
    return I.new_list_entries(st, [Entry(e.v, e.g + ((Term('insl', (k, e.v), 'bool'), True),), e.many) for e in es])


def cat_slice(v, b):
    """slice of a concatenation at constant offsets inside constant ends"""
    parts = list(v.args)
    if b.start is not None and b.start >= 0 and b.stop is None:
        n = b.start
        p = parts[0]
        if type(p) is Const and len(p.v) >= n:
            return s_cat([Const(p.v[n:])] + parts[1:])
    if b.start in (None, 0) and b.stop is not None and b.stop >= 0:
        p = parts[0]
        if type(p) is Const and len(p.v) >= b.stop:
            return Const(p.v[:b.stop])
    if b.start in (None, 0) and b.stop is not None and b.stop < 0:
        p = parts[-1]
        if type(p) is Const and len(p.v) >= -b.stop:
            return s_cat(parts[:-1] + [Const(p.v[:b.stop])])
    if b.start is not None and b.start < 0 and b.stop is None:
        p = parts[-1]
        if type(p) is Const and len(p.v) >= -b.start:
            return Const(p.v[b.start:])
    return None


def class_item(I, st, v, o, k, node):
    ci = o.data
    if ci.enum:
        def one(s, x):
            x = s.resolve(x)
            if type(x) is Const:
                if x.v in ci.members:
                    return ci.members[x.v]
                I.raise_bi(s, 'KeyError', node, x)
            return Term('enumbyname', (v, x))
        return lift1(I, st, k, one)
    m = I.class_attr(st, v, '__class_getitem__')
    if m is not None:
        return I.call(st, I.bind_attr(st, m, None, v, node), [k], {}, node)
    if any(type(c) is Bi and c.name.startswith('typing.') for c in ci.mro):
        return v
    I.raise_bi(st, 'TypeError', node, 'type object is not subscriptable')


def dict_item(I, st, ref, k, node):
    o = st.get(ref.oid)
    cls = o.cls

    def missing(s):
        if o.kind == 'inst' and type(cls) is Ref:
            m = I.find_user_method(s, ref, '__missing__')
            if m is not None:
                return I.call(s, Bound(m, ref), [k], {}, node)
        if I.is_subclass(s, cls, Bi('collections.Counter')) is True:
            return Const(0)
        if I.is_subclass(s, cls, Bi('collections.defaultdict')) is True:
            f = s.get(ref.oid).attrs.get('default_factory', NONE)
            if f != NONE:
                x = I.call(s, f, [], {}, node)
                C.dict_set(I, s, ref, k, x, node)
                return x
        if '~open' in s.get(ref.oid).attrs:
            return Term('item', (ref, k))
        I.emit('keymiss', st=s, oid=ref.oid, key=k, node=node)
        I.raise_bi(s, 'KeyError', node, k)

    def one(s, x):
        return C.d_get(I, s, s.get(ref.oid).data, x, node, missing)
    if type(k) is Ite:
        return I.lift(st, k, lambda s, x: get_item(I, s, ref, x, node))
    return one(st, k)


def set_item(I, st, v, k, val, node):
    v, k = st.simp(v), st.simp(k)
    if type(v) is Ite:
        return I.lift(st, v, lambda s, x: set_item(I, s, x, k, val, node))
    if type(v) is Ref:
        o = st.get(v.oid)
        if o.kind == 'inst':
            m = I.find_user_method(st, v, '__setitem__')
            if m is not None:
                return I.call(st, I.bind_attr(st, m, v, o.cls, node), [k, val], {}, node)
        kd = C.kind_of(I, st, v)
        if kd == 'dict':
            if type(k) is Ite:
                return I.lift(st, k, lambda s, x: set_item(I, s, v, x, val, node))
            C.dict_set(I, st, v, k, val, node)
            return NONE
        if kd == 'list':
            C.mut(I, st, v, 'item assignment', node)
            kk = st.resolve(k)
            d = st.w(v.oid).data
            if type(kk) is Const and isinstance(kk.v, int):
                i = kk.v
                if all(not e.g and not e.many for e in d):
                    if not -len(d) <= i < len(d):
                        I.raise_bi(st, 'IndexError', node, 'list assignment index out of range')
                    d[i] = Entry(val)
                    return NONE
                j = i if i >= 0 else len(d) + i
                if 0 <= j < len(d) and all(not e.g and not e.many for e in d[:j + 1]):
                    d[j] = Entry(val)
                    return NONE
            if type(k) is Term and k.op == 'slice':
                b = slice_bounds(st, k)
                es = I.entries(st, val, node)
                if b is not None and es is not None:
                    d = st.w(v.oid).data
                    d[b] = es
                    return NONE
            for i, e in enumerate(d):
                if ty_of(kk) in NUM:
                    c = C.eq_values(I, st, kk, Const(i), node)
                    c2 = C.eq_values(I, st, kk, Const(i - len(d)), node)
                    d[i] = Entry(ite(c, val, ite(c2, val, e.v)) if not e.many else Term('upd', (e.v, val, kk)), e.g, e.many)
                else:
                    d[i] = Entry(Term('upd', (e.v, val, kk)), e.g, e.many)
            return NONE
        if o.kind in ('ext',) or o.kind == 'inst' and I.has_ext_base(st, v):
            I.emit('setitem_ext', st=st, value=v, key=k, val=val, node=node)
            return NONE
        I.raise_bi(st, 'TypeError', node, 'object does not support item assignment')
    if type(v) in (Const, Tup):
        I.raise_bi(st, 'TypeError', node, 'object does not support item assignment')
    I.emit('setitem_ext', st=st, value=v, key=k, val=val, node=node)
    return NONE


def del_item(I, st, v, k, node):
    v, k = st.simp(v), st.simp(k)
    if type(v) is Ref:
        o = st.get(v.oid)
        if o.kind == 'inst':
            m = I.find_user_method(st, v, '__delitem__')
            if m is not None:
                return I.call(st, I.bind_attr(st, m, v, o.cls, node), [k], {}, node)
        kd = C.kind_of(I, st, v)
        if kd == 'dict':
            C.dict_del(I, st, v, k, node, strict=not C.is_counter(I, st, v))
            return NONE
        if kd == 'list':
            C.mut(I, st, v, 'item deletion', node)
            d = st.w(v.oid).data
            kk = st.resolve(k)
            if type(kk) is Const and isinstance(kk.v, int) and all(not e.g and not e.many for e in d):
                if not -len(d) <= kk.v < len(d):
                    I.raise_bi(st, 'IndexError', node, 'list assignment index out of range')
                del d[kk.v]
                return NONE
            b = slice_bounds(st, k) if type(k) is Term and k.op == 'slice' else None
            if b is not None and all(not e.g and not e.many for e in d):
                del d[b]
                return NONE
            st.w(v.oid).data = [Entry(e.v, e.g + ((Term('deleted', (v, kk), 'bool'), False),), e.many) for e in d]
            return NONE
        if not (o.kind == 'ext' or o.kind == 'inst' and I.has_ext_base(st, v)):
            I.raise_bi(st, 'TypeError', node, 'object does not support item deletion')
    return NONE


# --------------------------------------------------------------- methods

LIST_M = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'index', 'count', 'sort', 'reverse', 'copy'}
DICT_M = {'keys', 'values', 'items', 'get', 'pop', 'popitem', 'setdefault', 'update', 'clear', 'copy', 'fromkeys', 'move_to_end'}
COUNTER_M = {'elements', 'most_common', 'subtract', 'total'}
SET_M = {'add', 'remove', 'discard', 'pop', 'clear', 'union', 'intersection', 'difference', 'symmetric_difference', 'update',
         'intersection_update', 'difference_update', 'symmetric_difference_update', 'issubset', 'issuperset', 'isdisjoint', 'copy'}
SEQ_D = {'__len__', '__getitem__', '__iter__', '__contains__', '__init__', '__eq__', '__ne__'}
METHODS = {
    'list': LIST_M | SEQ_D | {'__setitem__', '__delitem__', '__add__', '__iadd__', '__mul__', '__reversed__'},
    'dict': DICT_M | SEQ_D | {'__setitem__', '__delitem__', '__or__', '__ior__'},
    'collections.OrderedDict': DICT_M | SEQ_D | {'__setitem__', '__delitem__'},
    'collections.defaultdict': DICT_M | SEQ_D | {'__setitem__', '__delitem__', '__missing__'},
    'collections.Counter': DICT_M | COUNTER_M | SEQ_D | {'__setitem__', '__delitem__', '__missing__', '__add__', '__sub__', '__and__', '__or__',
                                                        '__iadd__', '__isub__', '__iand__', '__ior__', '__pos__', '__neg__'},
    'set': SET_M | SEQ_D | {'__or__', '__and__', '__sub__', '__xor__', '__ior__', '__iand__', '__isub__', '__ixor__'},
    'frozenset': {'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'copy'} | SEQ_D |
                 {'__or__', '__and__', '__sub__', '__xor__', '__hash__'},
    'tuple': {'index', 'count', '__len__', '__getitem__', '__iter__', '__contains__', '__eq__', '__hash__', '__add__', '__new__'},
    'Exception': {'with_traceback'},
    'BaseException': {'with_traceback'},
}


def list_method(I, st, ref, name, args, kwargs, node):
    o = st.get(ref.oid)
    es = o.data
    sure = all(not e.g and not e.many for e in es)
    if name == 'append':
        C.mut(I, st, ref, 'append', node)
        st.w(ref.oid).data.append(Entry(args[0], (), False))
        return NONE
    if name in ('extend', '__iadd__'):
        C.mut(I, st, ref, name, node)
        C.list_extend(I, st, ref, args[0], node)
        return ref if name == '__iadd__' else NONE
    if name == 'insert':
        C.mut(I, st, ref, name, node)
        i = st.resolve(st.simp(args[0]))
        d = st.w(ref.oid).data
        if type(i) is Const and (i.v == 0 or sure):
            d.insert(i.v, Entry(args[1]))
        else:
            d.append(Entry(args[1]))
            st.w(ref.oid).attrs['~shuffled'] = TRUE
        return NONE
    if name == 'remove':
        C.mut(I, st, ref, name, node)
        d = st.w(ref.oid).data
        for i, e in enumerate(list(d)):
            c = I.truth(st, C.eq_values(I, st, e.v, args[0], node), node)
            if c == TRUE and not e.g and not e.many:
                d = st.w(ref.oid).data
                del d[i]
                return NONE
            if c != FALSE:
                c2 = I.c_and(conj(e.g), t_not(c))
                st.w(ref.oid).data[i] = Entry(e.v, C.glits(st.simp(c2)), e.many)
                t, f = I.fork(st, c) if not e.g and not e.many else (st, None)
                if f is not None and t is not None:
                    try:
                        list_method(I, f, ref, name, args, kwargs, node)
                        alts = [(t, None), (f, None)]
                    except PathDead:
                        alts = [(t, None)]
                    st.become(merge_states(alts)[0])
                return NONE
        I.raise_bi(st, 'ValueError', node, 'list.remove(x): x not in list')
    if name == 'pop':
        C.mut(I, st, ref, name, node)
        d = st.w(ref.oid).data
        i = st.resolve(st.simp(args[0])) if args else Const(-1)
        if not d:
            I.raise_bi(st, 'IndexError', node, 'pop from empty list')
        if type(i) is Const and sure:
            if not -len(d) <= i.v < len(d):
                I.raise_bi(st, 'IndexError', node, 'pop index out of range')
            return d.pop(i.v).v
        if type(i) is Const and i.v in (0, -1) and not d[i.v].g and not d[i.v].many:
            return d.pop(i.v).v
        r = Term('popped', (tuple((e.v, e.g) for e in d), i), same_ty(d))
        st.w(ref.oid).data = [Entry(e.v, e.g, True) for e in d]
        return r
    if name == 'clear':
        C.mut(I, st, ref, name, node)
        st.w(ref.oid).data = []
        return NONE
    if name == 'copy':
        return I.new_list_entries(st, list(es))
    if name == 'reverse':
        C.mut(I, st, ref, name, node)
        st.w(ref.oid).data = list(reversed(es))
        return NONE
    if name == '__reversed__':
        return st.new(Obj('iter', Bi('iterator'), {}, {'entries': list(reversed(es)), 'pos': 0}, node))
    if name == 'sort':
        C.mut(I, st, ref, name, node)
        r = sort_entries(I, st, list(es), kwargs.get('key', NONE), kwargs.get('reverse', FALSE), node)
        st.w(ref.oid).data = r
        return NONE
    if name == 'index':
        return seq_index(I, st, es, args[0], node, 'list')
    if name == 'count':
        tot = Const(0)
        for e in es:
            c = I.c_and(I.truth(st, C.eq_values(I, st, e.v, args[0], node), node), conj(e.g))
            tot = C.num_add(tot, ite(c, Const(1), Const(0)) if type(c) is not Const else Const(int(c.v)))
        return tot
    return common(I, st, ref, name, args, kwargs, node)


def seq_index(I, st, es, v, node, what):
    cands = []
    for i, e in enumerate(es):
        c = I.c_and(I.truth(st, C.eq_values(I, st, e.v, v, node), node), conj(e.g))
        if c == FALSE:
            continue
        cands.append((i, c))
        if c == TRUE:
            break
    if not cands:
        I.raise_bi(st, 'ValueError', node, '%r is not in %s' % (v, what))
    if cands[-1][1] != TRUE:
        s = st.copy()
        alive = True
        for i, c in cands:
            _, f = I.fork(s, c)
            if f is None:
                alive = False
                break
            s = f
        if alive:
            try:
                I.raise_bi(s, 'ValueError', node, 'not in ' + what)
            except PathDead:
                pass
        # the index exists on this path
        if len(cands) > 3:
            return Term('indexof', (Tup([e.v for e in es]), v), 'int', (0, max(0, len(es) - 1)))
    r = Const(cands[-1][0])
    for i, c in reversed(cands[:-1]):
        r = I_ite(I, c, Const(i), r)
    return r


def I_ite(I, c, a, b):
    if type(c) is Ite:
        return ite(c.c, I_ite(I, c.a, a, b), I_ite(I, c.b, a, b))
    return ite(c, a, b)


def sort_entries(I, st, es, key, reverse, node):
    """entries in sorted order; elements whose order is undecided keep their
    relative position, undecided numbers become order statistics"""
    keys = []
    for e in es:
        if key != NONE:
            g = conj(e.g)
            k = I.call(st, key, [e.v], {}, node)
        else:
            k = e.v
        keys.append(k)
    rev = reverse != FALSE and st.resolve(st.simp(reverse))
    rev = type(rev) is Const and bool(rev.v)
    undecided = [False]

    def less(i, j):
        c = I.truth(st, C.lt_values(I, st, keys[i], keys[j], node), node)
        if type(c) is Const:
            return c.v
        undecided[0] = True
        return False
    order = []
    for i in range(len(es)):
        p = len(order)
        if rev:
            while p > 0 and less(order[p - 1], i):
                p -= 1
        else:
            while p > 0 and less(i, order[p - 1]):
                p -= 1
        order.insert(p, i)
    if undecided[0]:
        I.emit('sort_undecided', st=st, entries=es, node=node)
        vals = [e.v for e in es]
        if key == NONE and all(ty_of(v) in NUM for v in vals) and all(not e.g and not e.many for e in es):
            canon = Tup(sorted(vals, key=lambda v: (v.n if type(v) is Term else -1, repr(v) if type(v) is not Term else '')))
            n = len(vals)
            rng = (min(interval(v)[0] for v in vals), max(interval(v)[1] for v in vals))
            ty = 'int' if all(ty_of(v) == 'int' for v in vals) else 'float'
            rs = [Entry(Term('nth_sorted', (canon, Const(i)), ty, rng)) for i in range(n)]
            return rs[::-1] if rev else rs
        return list(es)
    return [es[i] for i in order]


def common(I, st, ref, name, args, kwargs, node):
    """dunder calls shared by containers"""
    if name == '__len__':
        from . import models
        return models.length(I, st, ref, node)
    if name == '__getitem__':
        kd = C.kind_of(I, st, ref)
        if kd == 'dict':
            return dict_item(I, st, ref, st.simp(args[0]), node)
        if kd == 'list':
            if type(args[0]) is Term and args[0].op == 'slice':
                return get_slice(I, st, I.new_list_entries(st, list(st.get(ref.oid).data)), args[0], node)
            return list_item(I, st, ref, st.get(ref.oid), args[0], node)
    if name == '__setitem__':
        C.dict_set(I, st, ref, args[0], args[1], node)
        return NONE
    if name == '__delitem__':
        C.dict_del(I, st, ref, args[0], node, strict=not C.is_counter(I, st, ref))
        return NONE
    if name == '__contains__':
        kd = C.kind_of(I, st, ref)
        o = st.get(ref.oid)
        if kd == 'dict':
            return C.dict_has(I, st, o.data, st.simp(args[0]), node)
        if kd == 'set':
            return C.set_has(I, st, o.data, st.simp(args[0]), node)
        return C.contains(I, st, ref, args[0], node)
    if name == '__iter__':
        o = st.get(ref.oid)
        kd = C.kind_of(I, st, ref)
        if kd == 'dict':
            es = [Entry(e.k, e.g) for e in o.data.values()]
        elif kd == 'set':
            es = C.set_elems(I, st, o)
        else:
            es = list(o.data)
        return st.new(Obj('iter', Bi('iterator'), {}, {'entries': list(es), 'pos': 0}, node))
    if name in ('__eq__', '__ne__'):
        # structural comparison of the payloads
        a, b = ref, st.simp(args[0])
        ka, kb = C.kind_of(I, st, a), C.kind_of(I, st, b)
        if ka and ka == kb:
            c = payload_eq(I, st, a, b, node)
        else:
            c = FALSE
        return c if name == '__eq__' else t_not(c)
    if name == '__hash__':
        return Term('hash', (Term('frozen', tuple(I.keyof(st, e.v) for e in C.set_elems(I, st, st.get(ref.oid)))),), 'int')
    return C.call_dunder(I, st, ref, name, args, node)


def payload_eq(I, st, a, b, node):
    """compare as plain containers"""
    def plain(x):
        o = st.get(x.oid)
        if o.kind in ('list', 'dict', 'set'):
            return x
        k = C.kind_of(I, st, x)
        return st.new(Obj(k, Bi(k), {}, dict(o.data) if type(o.data) is dict else list(o.data)))
    return C.ref_eq(I, st, plain(a), plain(b), node)


def dict_method(I, st, ref, name, args, kwargs, node):
    o = st.get(ref.oid)
    cnt = C.is_counter(I, st, ref)
    if name in ('keys', 'values', 'items'):
        es = []
        for e in o.data.values():
            v = e.k if name == 'keys' else (e.v if name == 'values' else Tup([e.k, e.v]))
            es.append(Entry(v, e.g))
        if name in ('keys', 'items'):
            # set-like views
            r = I.new_list_entries(st, es)
        else:
            r = I.new_list_entries(st, es)
        if '~open' in o.attrs:
            st.w(r.oid).data.append(Entry(Term(name, (ref,)), (), True))
        st.w(r.oid).attrs['~view'] = TRUE
        return r
    if name == 'get':
        dflt = args[1] if len(args) > 1 else kwargs.get('default', NONE)
        k = st.simp(args[0])

        def one(s, x):
            def miss(q):
                return Term('getopt', (ref, x)) if '~open' in q.get(ref.oid).attrs else dflt
            return C.d_get(I, s, s.get(ref.oid).data, x, node, miss)
        return I.lift(st, k, one)
    if name == 'pop':
        k = st.simp(args[0])

        def popit(s, x):
            d = s.get(ref.oid).data
            has = C.dict_has(I, s, d, x, node)
            t, f = I.fork(s, has)
            alts = []
            if t is not None:
                v = C.d_get(I, t, t.get(ref.oid).data, x, node, lambda q: NONE)
                C.dict_del(I, t, ref, x, node, strict=False, what='pop')
                alts.append((t, v))
            if f is not None:
                if len(args) > 1:
                    alts.append((f, args[1]))
                else:
                    try:
                        I.raise_bi(f, 'KeyError', node, x)
                    except PathDead:
                        pass
            if not alts:
                raise PathDead()
            m, r = merge_states(alts)
            if m is not s:
                s.become(m)
            return r
        return I.lift(st, k, popit)
    if name == 'setdefault':
        k = st.simp(args[0])
        dflt = args[1] if len(args) > 1 else NONE

        def sd(s, x):
            def miss(q):
                C.dict_set(I, q, ref, x, dflt, node)
                return dflt
            return C.d_get(I, s, s.get(ref.oid).data, x, node, miss)
        return I.lift(st, k, sd)
    if name == 'update':
        if cnt:
            C.counter_update(I, st, ref, args[0] if args else None, kwargs, node)
        else:
            C.dict_update(I, st, ref, args[0] if args else None, node, kwargs=kwargs)
        return NONE
    if name == 'subtract':
        C.counter_update(I, st, ref, args[0] if args else None, kwargs, node, sign=-1)
        return NONE
    if name == 'clear':
        C.mut(I, st, ref, 'clear', node)
        st.w(ref.oid).data = {}
        return NONE
    if name == 'copy':
        if cnt and o.kind == 'inst':
            return I.call(st, o.cls, [ref], {}, node)
        n = st.new(Obj(o.kind if o.kind == 'dict' else 'dict', o.cls if o.kind == 'dict' else Bi('dict'), dict(o.attrs) if o.kind == 'dict' else {}, dict(o.data), node))
        return n
    if name == 'elements':
        es = []
        for e in o.data.values():
            n = e.v
            for lits, x in alternatives(n):
                x = st.resolve(x)
                g = tuple(e.g) + tuple(lits)
                if type(x) is Const:
                    es.extend([Entry(e.k, g)] * max(0, int(x.v)))
                    continue
                lo, hi = interval(x)
                if hi == INF or hi > 8:
                    es.append(Entry(e.k, g, True))
                else:
                    for i in range(int(hi)):
                        c = n_lt(Const(i), x)
                        if c == FALSE:
                            continue
                        es.append(Entry(e.k, g + C.glits(c)))
        return st.new(Obj('iter', Bi('iterator'), {}, {'entries': es, 'pos': 0}, node))
    if name == 'most_common':
        return I.new_list_entries(st, [Entry(Term('most_common', (ref, st.simp(args[0]) if args else NONE)), (), True)])
    if name == 'total':
        return C.sum_values([C.c_count(st, e) for e in o.data.values()])
    if name == 'popitem':
        C.mut(I, st, ref, 'popitem', node)
        d = st.w(ref.oid).data
        if not d:
            I.raise_bi(st, 'KeyError', node, 'dictionary is empty')
        k = list(d)[-1]
        e = d.pop(k)
        return Tup([e.k, e.v])
    if name == 'fromkeys':
        d = I.new_dict(st, [])
        for e in I.entries(st, args[0], node) or []:
            C.dict_set(I, st, d, e.v, args[1] if len(args) > 1 else NONE, node, True)
        return d
    if name == '__init__':
        if cnt:
            I.call_method(st, ref, 'update', args, kwargs, node) if (args or kwargs) else None
        else:
            if I.is_subclass(st, o.cls, Bi('collections.defaultdict')) is True and args:
                st.w(ref.oid).attrs['default_factory'] = args[0]
                args = args[1:]
            if args or kwargs:
                C.dict_update(I, st, ref, args[0] if args else None, node, True, kwargs)
        return NONE
    if name == '__missing__':
        return Const(0) if cnt else I.raise_bi(st, 'KeyError', node, args[0])
    if name in ('__iadd__', '__isub__', '__iand__', '__ior__') and cnt:
        op = {'__iadd__': 'Add', '__isub__': 'Sub', '__iand__': 'BitAnd', '__ior__': 'BitOr'}[name]
        return C.counter_inplace(I, st, op, ref, st.simp(args[0]), node)
    if name in ('__pos__', '__neg__') and cnt:
        return C.counter_sign(I, st, ref, name == '__neg__', node)
    if name == '__ior__':
        C.dict_update(I, st, ref, args[0], node)
        return ref
    if name == 'move_to_end':
        C.mut(I, st, ref, name, node)
        return NONE
    return common(I, st, ref, name, args, kwargs, node)


SETOPS = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub', 'symmetric_difference': 'BitXor',
          'update': 'BitOr', 'intersection_update': 'BitAnd', 'difference_update': 'Sub', 'symmetric_difference_update': 'BitXor'}


def set_method(I, st, ref, name, args, kwargs, node):
    o = st.get(ref.oid)
    if name == 'add':
        C.mut(I, st, ref, 'add', node)
        C.set_add(I, st, ref, args[0])
        return NONE
    if name in ('remove', 'discard'):
        if name == 'remove':
            c = C.set_has(I, st, o.data, st.simp(args[0]), node)
            t, f = I.fork(st, c)
            if f is not None:
                try:
                    I.raise_bi(f, 'KeyError', node, args[0])
                except PathDead:
                    pass
            if t is None:
                raise PathDead()
            if t is not st:
                st.become(t)
        C.mut(I, st, ref, name, node)
        C.set_remove(I, st, ref, args[0])
        return NONE
    if name == 'clear':
        C.mut(I, st, ref, name, node)
        st.w(ref.oid).data = []
        return NONE
    if name == 'copy':
        return st.new(Obj('set', o.cls if o.kind == 'set' else Bi('set'), {}, list(o.data), node))
    if name in SETOPS:
        upd = name.endswith('update')
        cur = ref
        if upd:
            C.mut(I, st, ref, name, node)
        elif not args:
            return set_method(I, st, ref, 'copy', [], {}, node)
        for a in args:
            a = st.simp(a)
            cur = C.set_bin(I, st, SETOPS[name], cur, a, node, 'set', target=ref if upd else None)
        return NONE if upd else cur
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        es = C.elems_of(I, st, args[0], node)
        mine = C.set_elems(I, st, o)
        if es is None or any(e.many for e in es + mine):
            return Term(name, (ref, args[0]), 'bool')
        other = Obj('set', None, {}, es)
        r = TRUE
        if name == 'isdisjoint':
            for e in mine:
                r = I.c_and(r, t_not(I.c_and(conj(e.g), C.set_has(I, st, es, e.v))))
            return r
        a, b = (mine, es) if name == 'issubset' else (es, o.data)
        for e in a:
            r = I.c_and(r, I.c_or(t_not(conj(e.g)), C.set_has(I, st, b, e.v)))
        return r
    if name == 'pop':
        C.mut(I, st, ref, name, node)
        es = C.set_elems(I, st, o)
        if not es:
            I.raise_bi(st, 'KeyError', node, 'pop from an empty set')
        if len(es) == 1 and not es[0].many and not es[0].g:
            st.w(ref.oid).data = []
            return es[0].v
        v = Term('setpop', (tuple((e.v, e.g) for e in es),), same_ty(es))
        st.w(ref.oid).data = [Entry(e.v, e.g + ((Term('stays', (v, e.v), 'bool'), True),), e.many) for e in es]
        return v
    if name == '__init__':
        if args:
            for e in C.elems_of(I, st, args[0], node) or []:
                C.set_add(I, st, ref, e.v, e.g, e.many)
        return NONE
    if name in ('__or__', '__and__', '__sub__', '__xor__'):
        op = {'__or__': 'BitOr', '__and__': 'BitAnd', '__sub__': 'Sub', '__xor__': 'BitXor'}[name]
        return C.set_bin(I, st, op, ref, st.simp(args[0]), node)
    if name in ('__ior__', '__iand__', '__isub__', '__ixor__'):
        op = {'__ior__': 'BitOr', '__iand__': 'BitAnd', '__isub__': 'Sub', '__ixor__': 'BitXor'}[name]
        C.mut(I, st, ref, name, node)
        return C.set_bin(I, st, op, ref, st.simp(args[0]), node, target=ref)
    return common(I, st, ref, name, args, kwargs, node)
