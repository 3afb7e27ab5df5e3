"""Containers: lists, dictionaries, counters, sets; comparison and operators."""
import math
from .values import *
from .state import *
from .state import conj
from . import m_str
from .m_str import lift1, to_str


def mut(I, st, ref, what, node):
    I.emit('mutate', st=st, oid=ref.oid, what=what, node=node, stack=list(I.stack))


def glits(c):
    """guard value -> literals"""
    if c == TRUE:
        return ()
    while type(c) is Term and c.op == 'not':
        return ((c.args[0], False),)
    return ((c, True),)


def kind_of(I, st, v):
    """list | dict | set | None for a Ref (payload kind)"""
    if type(v) is not Ref:
        return None
    o = st.get(v.oid)
    if o.kind in ('list', 'dict', 'set'):
        return o.kind
    if o.kind == 'inst':
        if type(o.data) is dict:
            return 'dict'
        if type(o.data) is list:
            return 'set' if o.site == 'set' else 'list'
    return None


def is_counter(I, st, v):
    if type(v) is not Ref:
        return False
    c = st.get(v.oid).cls
    return I.is_subclass(st, c, Bi('collections.Counter')) is True


# ------------------------------------------------------------------ dicts

def d_lookup(I, st, d, k, node=None):
    """[(guard value, entry)] candidates, in decreasing certainty"""
    key = I.keyof(st, k, node)
    e = d.get(key)
    if e is not None and not I.key_symbolic(key):
        out = [(conj(e.g), e)]
        for k2, e2 in d.items():
            if k2 != key and I.key_symbolic(k2) and I.key_alias(k2, key) is not False:
                out.append((None, e2))
        return key, out
    if e is not None:
        return key, [(conj(e.g), e)]
    out = []
    for k2, e2 in d.items():
        al = I.key_alias(k2, key)
        if al is True:
            out.append((conj(e2.g), e2))
        elif al is None:
            c = key_eq(I, st, e2.k, k)
            if c != FALSE:
                out.append((I.c_and(c, conj(e2.g)), e2))
    return key, out


def key_eq(I, st, a, b):
    return eq_values(I, st, a, b, None)


def d_get(I, st, d, k, node, missing):
    """missing: callable(st) -> value for an absent key"""
    key, cands = d_lookup(I, st, d, k, node)
    cands = [(st.simp(c) if c is not None else None, e) for c, e in cands]
    cands = [(c, e) for c, e in cands if c != FALSE]
    if cands and cands[0][0] == TRUE:
        return cands[0][1].v
    # fork over the candidates
    return _d_get(I, st, cands, node, missing)


def _d_get(I, st, cands, node, missing):
    if not cands:
        return missing(st)
    c, e = cands[0]
    if c is None:
        c = fresh('alias', 'bool')
    t, f = I.fork(st, c)
    alts = []
    if t is not None:
        alts.append((t, e.v))
    if f is not None:
        try:
            alts.append((f, _d_get(I, f, cands[1:], node, missing)))
        except PathDead:
            pass
    if not alts:
        raise PathDead()
    m, r = merge_states(alts)
    if m is not st:
        st.become(m)
    return st.simp(r)


def dict_set(I, st, ref, k, v, node, quiet=False):
    if not quiet:
        mut(I, st, ref, 'item assignment', node)
    key = I.keyof(st, k, node)
    d = st.w(ref.oid).data
    if key in d:
        e = d[key]
        d[key] = DEntry(e.k, v)
        return
    sym = I.key_symbolic(key)
    for k2 in list(d):
        if sym or I.key_symbolic(k2):
            al = I.key_alias(k2, key)
            if al is True:
                d[k2] = DEntry(d[k2].k, v, ())
                return
            if al is None:
                c = key_eq(I, st, d[k2].k, k)
                if c == TRUE:
                    d[k2] = DEntry(d[k2].k, v, ())
                    return
                if c != FALSE:
                    d[k2] = DEntry(d[k2].k, ite(c, v, d[k2].v), d[k2].g)
    st.w(ref.oid).data[key] = DEntry(k, v)


def dict_has(I, st, d, k, node):
    key, cands = d_lookup(I, st, d, k, node)
    r = FALSE
    for c, e in cands:
        if c is None:
            c = fresh('alias', 'bool')
        r = I.c_or(c, r)
    return st.simp(r)


def dict_del(I, st, ref, k, node, strict=True, what='item deletion'):
    key = I.keyof(st, k, node)
    d = st.get(ref.oid).data
    if key in d:
        e = d[key]
        if e.g and strict:
            t, f = I.fork(st, conj(e.g))
            if f is not None:
                try:
                    I.raise_bi(f, 'KeyError', node, k)
                except PathDead:
                    pass
            if t is None:
                raise PathDead()
            if t is not st:
                st.become(t)
        mut(I, st, ref, what, node)
        del st.w(ref.oid).data[key]
        return e.v
    has = dict_has(I, st, d, k, node)
    if has == FALSE:
        if strict:
            I.raise_bi(st, 'KeyError', node, k)
        return None
    mut(I, st, ref, what, node)
    d = st.w(ref.oid).data
    for k2 in list(d):
        if I.key_alias(k2, key) is not False:
            c = key_eq(I, st, d[k2].k, k)
            if c != FALSE:
                g = conj(d[k2].g)
                ng = I.c_and(g, t_not(c))
                if ng == FALSE:
                    del d[k2]
                else:
                    d[k2] = DEntry(d[k2].k, d[k2].v, glits(ng))
    return Term('popped', (ref, k))


def dict_items(I, st, v):
    """(key, value) pairs of a mapping with certain entries, else None"""
    if type(v) is Ref and kind_of(I, st, v) == 'dict':
        d = st.get(v.oid).data
        out = []
        for e in d.values():
            if e.g:
                c = st.simp(conj(e.g))
                if c == FALSE:
                    continue
                if c != TRUE:
                    return None
            out.append((e.k, e.v))
        return out
    return None


def dict_update(I, st, ref, other, node, quiet=False, kwargs=None):
    """dict.update semantics (not Counter)"""
    other = st.simp(other) if other is not None else None
    if not quiet:
        mut(I, st, ref, 'update', node)
    if other is not None:
        if type(other) is Ite:
            I.lift(st, other, lambda s, x: dict_update(I, s, ref, x, node, True) or NONE)
        elif kind_of(I, st, other) == 'dict':
            for e in list(st.get(other.oid).data.values()):
                c = st.simp(conj(e.g))
                if c == FALSE:
                    continue
                if c == TRUE:
                    dict_set(I, st, ref, e.k, e.v, node, True)
                else:
                    key = I.keyof(st, e.k, node)
                    d = st.w(ref.oid).data
                    if key in d:
                        o = d[key]
                        d[key] = DEntry(o.k, ite(c, e.v, o.v), glits(I.c_or(c, conj(o.g))))
                    else:
                        d[key] = DEntry(e.k, e.v, glits(c))
        elif type(other) is Term or (type(other) is Ref and st.get(other.oid).kind in ('inst', 'ext')):
            if type(other) is Ref and I.find_method(st, other, 'keys') is not None:
                ks = I.call_method(st, other, 'keys', [], {}, node)
                for e in I.entries(st, ks, node) or []:
                    dict_set(I, st, ref, e.v, I.get_item(st, other, e.v, node), node, True)
            else:
                st.w(ref.oid).attrs['~open'] = TRUE
        else:
            for e in I.entries(st, other, node) or []:
                p = st.simp(e.v)
                k = I.get_item(st, p, Const(0), node)
                v = I.get_item(st, p, Const(1), node)
                if e.g and st.simp(conj(e.g)) != TRUE:
                    key = I.keyof(st, k, node)
                    d = st.w(ref.oid).data
                    c = conj(e.g)
                    if key in d:
                        o = d[key]
                        d[key] = DEntry(o.k, ite(c, v, o.v), glits(I.c_or(c, conj(o.g))))
                    else:
                        d[key] = DEntry(k, v, glits(c))
                else:
                    dict_set(I, st, ref, k, v, node, True)
    for k, v in (kwargs or {}).items():
        if k == '**':
            st.w(ref.oid).attrs['~open'] = TRUE
        else:
            dict_set(I, st, ref, Const(k), v, node, True)


# --------------------------------------------------------------- counters

def c_count(st, e):
    """count of an entry, 0 when absent"""
    return ite(conj(e.g), e.v, Const(0)) if e.g else e.v


def num_add(a, b):
    return map_ite2(a, b, n_add)


def num_sub(a, b):
    return map_ite2(a, b, n_sub)


def counter_set(I, st, ref, k, v, node):
    """self[k] = v from inside Counter methods (subclass __setitem__ ignored
    unless user-defined)"""
    dict_set(I, st, ref, k, v, node, True)


def counter_update(I, st, ref, other, kwargs, node, sign=1, quiet=False):
    if not quiet:
        mut(I, st, ref, 'update' if sign > 0 else 'subtract', node)

    def bump(s, k, n):
        d = s.get(ref.oid).data
        key = I.keyof(s, k, node)
        e = d.get(key)
        if e is None and I.key_symbolic(key):
            old = d_get(I, s, d, k, node, lambda q: Const(0))
        else:
            old = c_count(s, e) if e is not None else Const(0)
        new = num_add(old, n) if sign > 0 else num_sub(old, n)
        dict_set(I, s, ref, k, new, node, True)
    if other is not None:
        other = st.simp(other)
        if type(other) is Ite:
            I.lift(st, other, lambda s, x: counter_update(I, s, ref, x, None, node, sign, True) or NONE)
        elif kind_of(I, st, other) == 'dict':
            for e in list(st.get(other.oid).data.values()):
                c = st.simp(conj(e.g))
                if c == FALSE:
                    continue
                if c == TRUE:
                    bump(st, e.k, e.v)
                else:
                    key = I.keyof(st, e.k, node)
                    d = st.w(ref.oid).data
                    o = d.get(key)
                    n = ite(c, e.v, Const(0))
                    if o is None:
                        d[key] = DEntry(e.k, n if sign > 0 else map_ite(n, n_neg), glits(c))
                    else:
                        old = c_count(st, o)
                        d[key] = DEntry(o.k, num_add(old, n) if sign > 0 else num_sub(old, n), glits(I.c_or(conj(o.g), c)))
        elif other == NONE:
            pass
        else:
            def body(s, v):
                if I.loops and type(v) is Term and v.op in ('elem', 'elem2'):
                    pass
                bump(s, v, Const(1))
                return None
            outs = I.iterate(st, other, body, node)
            ns = [(o[1], None) for o in outs if o[0] == 'n']
            if not ns:
                raise PathDead()
            m = merge_states(ns)[0] if len(ns) > 1 else ns[0][0]
            if m is not st:
                st.become(m)
    for k, v in (kwargs or {}).items():
        if k != '**':
            bump(st, Const(k), v)


def keep_positive(I, st, ref):
    d = st.w(ref.oid).data
    for k in list(d):
        e = d[k]
        c = positive(e.v)
        g = I.c_and(conj(e.g), c)
        g = st.simp(g)
        if g == FALSE:
            del d[k]
        elif g == TRUE:
            if e.g:
                d[k] = DEntry(e.k, e.v)
        else:
            d[k] = DEntry(e.k, e.v, glits(g))


def positive(v):
    return map_ite(v, lambda x: n_lt(Const(0), x))


def counter_new(I, st, node):
    return st.new(Obj('dict', Bi('collections.Counter'), {}, {}, node))


def counter_bin(I, st, op, a, b, node):
    """Counter.__add__ etc: a plain Counter result (or Term)"""
    if kind_of(I, st, b) != 'dict':
        return Bi('NotImplemented')
    r = counter_new(I, st, node)
    da, db = st.get(a.oid).data, st.get(b.oid).data
    out = {}
    order = list(da) + [k for k in db if k not in da]
    for k in order:
        ea, eb = da.get(k), db.get(k)
        x = c_count(st, ea) if ea is not None else Const(0)
        y = c_count(st, eb) if eb is not None else Const(0)
        kk = (ea or eb).k
        if op == 'Add':
            v = num_add(x, y)
        elif op == 'Sub':
            v = num_sub(x, y)
        elif op == 'BitAnd':
            if ea is None:
                continue
            v = map_ite2(x, y, lambda p, q: ite(n_lt(p, q), p, q))
        else:
            v = map_ite2(x, y, lambda p, q: ite(n_lt(p, q), q, p))
        out[k] = DEntry(kk, v)
    st.w(r.oid).data = out
    keep_positive(I, st, r)
    return r


def counter_inplace(I, st, op, a, b, node):
    if kind_of(I, st, b) != 'dict':
        if op in ('Add', 'Sub'):
            I.raise_bi(st, 'AttributeError', node, "object has no attribute 'items'")
        return Bi('NotImplemented')
    mut(I, st, a, 'in-place ' + op, node)
    if op in ('Add', 'Sub'):
        counter_update(I, st, a, b, None, node, 1 if op == 'Add' else -1, True)
    else:
        r = counter_bin(I, st, op, a, b, node)
        st.w(a.oid).data = dict(st.get(r.oid).data)
    keep_positive(I, st, a)
    return a


def counter_sign(I, st, a, neg, node):
    r = counter_new(I, st, node)
    out = {}
    for k, e in st.get(a.oid).data.items():
        v = map_ite(e.v, n_neg) if neg else e.v
        out[k] = DEntry(e.k, v, e.g)
    st.w(r.oid).data = out
    keep_positive(I, st, r)
    return r


def sum_values(vals):
    """sum, keeping undecided alternatives as atoms"""
    r = Const(0)
    for v in vals:
        if type(r) is Ite and type(v) is Ite:
            r = n_add(r, v)
        elif type(v) is Ite or type(r) is Ite:
            r = n_add(r, v)
        else:
            r = n_add(r, v)
    return r


# ------------------------------------------------------------------- sets

def is_removal(e):
    return type(e.v) is Term and e.v.op == '~'


def set_norm(I, st, data):
    """decide removals where possible; -> list of entries (may keep removals)"""
    if not any(is_removal(e) for e in data):
        return data
    out = []
    for e in data:
        if is_removal(e):
            x = e.v.args[0]
            kx = I.keyof(st, x)
            nxt = []
            undecided = False
            for f in out:
                if is_removal(f):
                    nxt.append(f)
                    continue
                if e.g:
                    al = I.key_alias(I.keyof(st, f.v), kx)
                    if al is False:
                        nxt.append(f)
                        continue
                    undecided = True
                    nxt.append(f)
                    continue
                al = I.key_alias(I.keyof(st, f.v), kx)
                if al is True and not f.many:
                    continue
                if al is None:
                    undecided = True
                nxt.append(f)
            out = nxt
            if undecided:
                out.append(e)
        else:
            out.append(e)
    return out


def set_elems(I, st, o):
    """entries without removal steps, undecided removals as guards"""
    data = set_norm(I, st, o.data)
    if not any(is_removal(e) for e in data):
        return data
    out = []
    for i, e in enumerate(data):
        if is_removal(e):
            continue
        g = conj(e.g)
        for f in data[i + 1:]:
            if is_removal(f):
                c = I.c_and(eq_values(I, st, e.v, f.v.args[0], None), conj(f.g))
                g = I.c_and(g, t_not(c))
        g = st.simp(g)
        if g == FALSE:
            continue
        out.append(Entry(e.v, glits(g), e.many))
    return out


def set_add(I, st, ref, v, g=(), many=False):
    v = st.simp(v)
    if type(v) is Ite and not all(type(x) in (Const, Term) for _, x in alternatives(v)):
        for l, x in alternatives(v):
            set_add(I, st, ref, x, tuple(g) + tuple(l), many)
        return
    key = I.keyof(st, v)
    d = st.w(ref.oid).data
    for i in range(len(d) - 1, -1, -1):
        e = d[i]
        if is_removal(e):
            if I.key_alias(I.keyof(st, e.v.args[0]), key) is False:
                continue
            break
        if I.keyof(st, e.v) == key:
            if not e.g:
                return
            gg = I.c_or(conj(e.g), conj(g))
            d[i] = Entry(e.v, glits(gg), e.many)
            return
    d.append(Entry(v, tuple(g), many))


def set_remove(I, st, ref, v, g=()):
    v = st.simp(v)
    if type(v) is Ite:
        for l, x in alternatives(v):
            set_remove(I, st, ref, x, tuple(g) + tuple(l))
        return
    d = st.w(ref.oid).data
    d.append(Entry(Term('~', (v,)), tuple(g)))
    st.w(ref.oid).data = list(set_norm(I, st, d))


def set_has(I, st, data, v, node=None):
    key = I.keyof(st, v, node)
    r = FALSE
    for e in data:
        x = e.v.args[0] if is_removal(e) else e.v
        al = I.key_alias(I.keyof(st, x), key)
        if al is False:
            continue
        c = TRUE if al is True else eq_values(I, st, x, v, node)
        if e.many:
            c = Term('among', (e.v, v), 'bool')
        c = I.c_and(c, conj(e.g))
        if is_removal(e):
            r = I.c_and(r, t_not(c))
        else:
            r = I.c_or(c, r)
    return st.simp(r)


def elems_of(I, st, v, node):
    """entries of any iterable"""
    if type(v) is Ref and kind_of(I, st, v) == 'set':
        return set_elems(I, st, st.get(v.oid))
    if type(v) is Ref and kind_of(I, st, v) == 'dict':
        return [Entry(e.k, e.g) for e in st.get(v.oid).data.values()]
    return I.entries(st, v, node)


def set_bin(I, st, op, a, b, node, cls='set', target=None):
    """a op b for set payloads; target: update this object in place"""
    da = list(st.get(a.oid).data)
    kb = kind_of(I, st, b)
    db = list(st.get(b.oid).data) if kb == 'set' else None
    if db is None:
        es = elems_of(I, st, b, node)
        if es is None:
            es = [Entry(Term('elem', (b,)), (), True)]
        db = list(es)
    r = target if target is not None else st.new(Obj('set', Bi(cls), {}, []))
    if op == 'BitOr':
        st.w(r.oid).data = list(da)
        for e in db:
            if is_removal(e):
                continue
        for e in (set_elems(I, st, Obj('set', None, {}, db)) or []):
            set_add(I, st, r, e.v, e.g, e.many)
    elif op == 'Sub':
        st.w(r.oid).data = list(da)
        for e in (set_elems(I, st, Obj('set', None, {}, db)) or []):
            if e.many:
                d = st.w(r.oid).data
                for i, f in enumerate(d):
                    if not is_removal(f):
                        d[i] = Entry(f.v, tuple(f.g) + ((Term('among', (e.v, f.v), 'bool'), False),), f.many)
            else:
                set_remove(I, st, r, e.v, e.g)
    else:
        ea = set_elems(I, st, Obj('set', None, {}, da)) or []
        eb = set_elems(I, st, Obj('set', None, {}, db)) or []
        out = []
        if op == 'BitAnd':
            for e in ea:
                c = st.simp(I.c_and(conj(e.g), set_has(I, st, db, e.v)))
                if c != FALSE:
                    out.append(Entry(e.v, glits(c), e.many))
        else:
            for x, y in ((ea, db), (eb, da)):
                for e in x:
                    c = st.simp(I.c_and(conj(e.g), t_not(set_has(I, st, y, e.v))))
                    if c != FALSE:
                        out.append(Entry(e.v, glits(c), e.many))
        st.w(r.oid).data = out
    return r


# ------------------------------------------------------------- comparison

def eq_values(I, st, a, b, node):
    a, b = st.simp(a), st.simp(b)
    if a == b:
        if type(a) is Const and a.v != a.v:
            return FALSE
        if type(a) is not Ref:
            return TRUE
    if type(a) is Ite or type(b) is Ite:
        if I.pure_scalar(a) and I.pure_scalar(b):
            return map_ite2(a, b, lambda x, y: eq_values(I, st, x, y, node))
        if type(a) is Ite:
            return I.lift(st, a, lambda s, x: eq_values(I, s, x, b, node))
        return I.lift(st, b, lambda s, x: eq_values(I, s, a, x, node))
    a, b = st.resolve(a), st.resolve(b)
    ta, tb = type(a), type(b)
    if ta is Const and tb is Const:
        return cbool(a.v == b.v)
    if ta is Ref or tb is Ref:
        return ref_eq(I, st, a, b, node)
    if ta is Tup and tb is Tup:
        if len(a.items) != len(b.items):
            return FALSE
        r = TRUE
        for x, y in zip(a.items, b.items):
            r = I.c_and(r, I.truth(st, eq_values(I, st, x, y, node), node))
            if r == FALSE:
                return FALSE
        return r
    if ta is Tup or tb is Tup:
        o = b if ta is Tup else a
        if type(o) is Const or type(o) is Term and ty_of(o) in ('int', 'str', 'float', 'bool', 'list'):
            return FALSE
        return Term('eq', (a, b), 'bool')
    tya, tyb = ty_of(a), ty_of(b)
    if tya in NUM and tyb in NUM:
        x, y = m_str.strip_float(a), m_str.strip_float(b)
        if tya == 'bool' and type(y) is Const:
            return a if y.v == 1 else (t_not(a) if y.v == 0 else FALSE)
        if tyb == 'bool' and type(x) is Const:
            return b if x.v == 1 else (t_not(b) if x.v == 0 else FALSE)
        for p in (x, y):
            if type(p) is Const and p.v != p.v:
                return FALSE
        for p in (x, y):
            if type(p) is Const and p.v in (INF, -INF):
                return FALSE if ty_of(y if p is x else x) == 'int' else Term('eq', (x, y), 'bool')
        return n_eq(x, y)
    known = NUM + ('str', 'NoneType', 'tuple', 'bytes', 'list')
    if tya in known and tyb in known:
        fa = 'num' if tya in NUM else tya
        fb = 'num' if tyb in NUM else tyb
        if fa != fb:
            return FALSE
    if ta is Const and tb is Term:
        a, b = b, a
    if type(a) is Term and a.op == 'cat' and type(b) is Const and isinstance(b.v, str):
        r = cat_vs_const(a, b.v)
        if r is not None:
            return r
    if type(a) is Term and a.op == 'cat' and type(b) is Term and b.op == 'cat':
        # constant prefixes that differ decide inequality
        pa, pb = a.args[0], b.args[0]
        if type(pa) is Const and type(pb) is Const:
            n = min(len(pa.v), len(pb.v))
            if pa.v[:n] != pb.v[:n]:
                return FALSE
    if type(a) is Bi and type(b) is Bi:
        return FALSE
    if type(a) is Bi or type(b) is Bi:
        o = b if type(a) is Bi else a
        if type(o) is not Term:
            return FALSE
        return Term('eq', (a, b), 'bool')
    if type(a) is Term and type(b) is Term and b.n < a.n:
        a, b = b, a
    if not isinstance(a, V) or not isinstance(b, V):
        return FALSE
    return Term('eq', (a, b), 'bool')


def cat_vs_const(t, s):
    """FALSE when the pieces of t cannot spell s"""
    import re
    rx = ''
    for p in t.args:
        if type(p) is Const:
            rx += re.escape(p.v)
        elif m_str.leaf_kind(p) == 'int':
            rx += '[0-9]+'
        else:
            rx += '.*'
    if not re.fullmatch(rx, s, re.S):
        return FALSE
    return None


def ref_eq(I, st, a, b, node):
    for x, y, nm in ((a, b, '__eq__'), (b, a, '__eq__')):
        if type(x) is Ref:
            o = st.get(x.oid)
            if o.kind == 'inst' and type(o.cls) is Ref:
                m = I.find_user_method(st, x, '__eq__')
                if m is not None:
                    r = I.call(st, Bound(m, x), [y], {}, node)
                    if r != Bi('NotImplemented'):
                        return I.truth(st, r, node)
        elif type(x) is Tup and x.cls is not None:
            pass
    if a == b:
        return TRUE
    ka, kb = kind_of(I, st, a), kind_of(I, st, b)
    if ka and kb:
        if ka != kb:
            return FALSE
        oa, ob = st.get(a.oid), st.get(b.oid)
        if ka == 'list':
            x, y = oa.data, ob.data
            if any(e.g or e.many for e in x) or any(e.g or e.many for e in y):
                if x == y:
                    return TRUE
                return Term('eqlist', (tuple(x), tuple(y)), 'bool')
            if len(x) != len(y):
                return FALSE
            r = TRUE
            for p, q in zip(x, y):
                r = I.c_and(r, I.truth(st, eq_values(I, st, p.v, q.v, node), node))
                if r == FALSE:
                    return r
            return r
        if ka == 'dict':
            x, y = oa.data, ob.data
            if '~open' in oa.attrs or '~open' in ob.attrs:
                return Term('eq', (a, b), 'bool')
            if set(x) != set(y):
                if any(I.key_symbolic(k) for k in list(x) + list(y)):
                    return Term('eqdict', (a, b), 'bool')
                miss = [e for k, e in list(x.items()) + list(y.items()) if k not in x or k not in y]
                if any(not e.g for e in miss):
                    return FALSE
            r = TRUE
            for k in list(x) + [k for k in y if k not in x]:
                ex, ey = x.get(k), y.get(k)
                px = conj(ex.g) if ex else FALSE
                py = conj(ey.g) if ey else FALSE
                if ex and ey:
                    same = I.truth(st, eq_values(I, st, ex.v, ey.v, node), node)
                else:
                    same = FALSE
                both = I.c_and(I.c_and(px, py), same)
                none = I.c_and(t_not(px), t_not(py))
                r = I.c_and(r, I.c_or(both, none))
                if r == FALSE:
                    return r
            return r
        if ka == 'set':
            ea, eb = set_elems(I, st, oa), set_elems(I, st, ob)
            if any(e.many for e in ea + eb):
                return Term('eqset', (tuple(ea), tuple(eb)), 'bool')
            r = TRUE
            for x, ys in ((ea, ob.data), (eb, oa.data)):
                for e in x:
                    c = I.c_or(t_not(conj(e.g)), set_has(I, st, ys, e.v))
                    r = I.c_and(r, c)
                    if r == FALSE:
                        return r
            return r
    ext = lambda v: type(v) is Term and v.ty not in KNOWN_SCALAR or (type(v) is Ref and (st.get(v.oid).kind == 'ext' or (st.get(v.oid).kind == 'inst' and I.has_ext_base(st, v))))
    if ext(a) or ext(b):
        for x, y in ((a, b), (b, a)):
            if type(x) is Ref and st.get(x.oid).kind in ('class', 'func', 'module') and (type(y) is not Term):
                return FALSE
        if b == NONE or a == NONE:
            return FALSE if (type(a) is Ref or type(b) is Ref) else Term('eq', (a, b), 'bool')
        return Term('eq', (a, b), 'bool')
    return FALSE


KNOWN_SCALAR = ('int', 'float', 'bool', 'str', 'NoneType', 'bytes')


def lt_values(I, st, a, b, node, strict=True):
    """a < b (strict) or a <= b"""
    a, b = st.simp(a), st.simp(b)
    if type(a) is Ite or type(b) is Ite:
        if I.pure_scalar(a) and I.pure_scalar(b):
            return map_ite2(a, b, lambda x, y: lt_values(I, st, x, y, node, strict))
        if type(a) is Ite:
            return I.lift(st, a, lambda s, x: lt_values(I, s, x, b, node, strict))
        return I.lift(st, b, lambda s, x: lt_values(I, s, a, x, node, strict))
    a, b = st.resolve(a), st.resolve(b)
    if type(a) is Const and type(b) is Const:
        try:
            return cbool(a.v < b.v if strict else a.v <= b.v)
        except TypeError as e:
            I.raise_bi(st, 'TypeError', node, str(e))
    if type(a) is Tup and type(b) is Tup:
        return seq_lt(I, st, list(a.items), list(b.items), node, strict)
    if type(a) is Ref or type(b) is Ref:
        return ref_lt(I, st, a, b, node, strict)
    ta, tb = ty_of(a), ty_of(b)
    if ta in NUM and tb in NUM:
        x, y = m_str.strip_float(a), m_str.strip_float(b)
        for p in (x, y):
            if type(p) is Const and p.v != p.v:
                return FALSE
        if ty_of(x) == 'bool' and type(x) is Term:
            x = ite(x, Const(1), Const(0))
        if ty_of(y) == 'bool' and type(y) is Term:
            y = ite(y, Const(1), Const(0))
        if type(x) is Ite or type(y) is Ite:
            return map_ite2(x, y, lambda p, q: lt_values(I, st, p, q, node, strict))
        for p, other, big in ((y, x, True), (x, y, False)):
            if type(p) is Const and p.v in (INF, -INF) and ty_of(other) == 'int':
                return cbool((p.v > 0) == big)
        return n_lt(x, y) if strict else t_not(n_lt(y, x))
    bad = ('str', 'NoneType')
    if (ta in bad or tb in bad) and ta in NUM + bad and tb in NUM + bad and ta != tb:
        I.raise_bi(st, 'TypeError', node, "'<' not supported between instances of %s and %s" % (ta, tb))
    return Term('lt' if strict else 'le', (a, b), 'bool')


def seq_lt(I, st, xs, ys, node, strict):
    """lexicographic"""
    if not xs or not ys:
        if strict:
            return cbool(len(xs) == 0 and len(ys) > 0)
        return cbool(len(xs) == 0)
    e = I.truth(st, eq_values(I, st, xs[0], ys[0], node), node)
    if e == TRUE:
        return seq_lt(I, st, xs[1:], ys[1:], node, strict)
    l = I.truth(st, lt_values(I, st, xs[0], ys[0], node, True), node)
    if e == FALSE:
        return l
    rest = seq_lt(I, st, xs[1:], ys[1:], node, strict)
    return ite_c(I, e, rest, l)


def ite_c(I, c, a, b):
    if type(c) is Ite:
        return I.c_or(I.c_and(c, a), I.c_and(t_not(c), b))
    return ite(c, a, b)


SWAP = {'__lt__': '__gt__', '__le__': '__ge__'}


def ref_lt(I, st, a, b, node, strict):
    nm = '__lt__' if strict else '__le__'
    m = I.find_user_method(st, a, nm) if type(a) is Ref and st.get(a.oid).kind == 'inst' else None
    if m is not None:
        r = I.call(st, Bound(m, a), [b], {}, node)
        if r != Bi('NotImplemented'):
            return r
    m = I.find_user_method(st, b, SWAP[nm]) if type(b) is Ref and st.get(b.oid).kind == 'inst' else None
    if m is not None:
        r = I.call(st, Bound(m, b), [a], {}, node)
        if r != Bi('NotImplemented'):
            return r
    # total_ordering derivations
    for x, y, first in ((a, b, True), (b, a, False)):
        if type(x) is Ref and st.get(x.oid).kind == 'inst' and type(st.get(x.oid).cls) is Ref and st.get(st.get(x.oid).cls.oid).data.total:
            lt = I.find_user_method(st, x, '__lt__')
            gt = I.find_user_method(st, x, '__gt__')
            if lt is None and gt is None:
                continue
            if first:
                # a < b / a <= b
                if lt is not None:
                    l = I.truth(st, I.call(st, Bound(lt, x), [y], {}, node), node)
                    return l if strict else I.c_or(l, I.truth(st, eq_values(I, st, x, y, node), node))
                g = I.truth(st, I.call(st, Bound(gt, x), [y], {}, node), node)
                if not strict:
                    return t_not(g)
                return I.c_and(t_not(g), t_not(I.truth(st, eq_values(I, st, x, y, node), node)))
            if lt is not None:
                l = I.truth(st, I.call(st, Bound(lt, x), [y], {}, node), node)
                if not strict:
                    return t_not(l)
                return I.c_and(t_not(l), t_not(I.truth(st, eq_values(I, st, x, y, node), node)))
    ka, kb = kind_of(I, st, a), kind_of(I, st, b)
    if ka == 'list' and kb == 'list':
        x, y = st.get(a.oid).data, st.get(b.oid).data
        if any(e.g or e.many for e in x) or any(e.g or e.many for e in y):
            # effects of element comparison still matter
            return Term('ltlist', (tuple(x), tuple(y)), 'bool')
        return seq_lt(I, st, [e.v for e in x], [e.v for e in y], node, strict)
    if ka == 'set' and kb == 'set':
        return Term('subset', (a, b), 'bool')
    if type(a) is Term and a.ty is None or type(b) is Term and b.ty is None:
        return Term('lt' if strict else 'le', (a, b), 'bool')
    for x in (a, b):
        if type(x) is Ref and st.get(x.oid).kind in ('ext',) or type(x) is Ref and st.get(x.oid).kind == 'inst' and I.has_ext_base(st, x):
            return Term('lt' if strict else 'le', (a, b), 'bool')
    I.raise_bi(st, 'TypeError', node, "'<' not supported between these objects")


def compare(I, st, op, a, b, node):
    if op in ('Is', 'IsNot'):
        r = identity(I, st, a, b)
        return r if op == 'Is' else t_not(r)
    if op == 'Eq':
        return eq_values(I, st, a, b, node)
    if op == 'NotEq':
        sa = st.simp(a)
        if type(sa) is Ref and st.get(sa.oid).kind == 'inst':
            m = I.find_user_method(st, sa, '__ne__')
            if m is not None:
                return I.truth(st, I.call(st, Bound(m, sa), [b], {}, node), node)
        return t_not(I.truth(st, eq_values(I, st, a, b, node), node))
    if op == 'Lt':
        return lt_values(I, st, a, b, node)
    if op == 'LtE':
        return lt_values(I, st, a, b, node, False)
    if op in ('Gt', 'GtE'):
        nm = '__gt__' if op == 'Gt' else '__ge__'
        sa = st.simp(a)
        if type(sa) is Ref and st.get(sa.oid).kind == 'inst':
            m = I.find_user_method(st, sa, nm)
            if m is not None:
                return I.call(st, Bound(m, sa), [b], {}, node)
        return lt_values(I, st, b, a, node, op == 'Gt')
    if op in ('In', 'NotIn'):
        r = contains(I, st, b, a, node)
        r = I.truth(st, r, node)
        return r if op == 'In' else t_not(r)
    raise AssertionError(op)


def identity(I, st, a, b):
    a, b = st.simp(a), st.simp(b)
    if type(a) is Ite or type(b) is Ite:
        return map_ite2(a, b, lambda x, y: identity(I, st, x, y))
    a, b = st.resolve(a), st.resolve(b)
    if type(a) is Const and type(b) is Const:
        return cbool(a == b)
    if type(a) is Ref and type(b) is Ref:
        return cbool(a is b)
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y == NONE:
            if type(x) is Term:
                if x.ty is not None:
                    return FALSE
                if x.op in ('lin', 'cat'):
                    return FALSE
                return Term('is', (x, y), 'bool')
            return FALSE
        if type(y) is Const and isinstance(y.v, bool) and type(x) is Term and x.ty == 'bool':
            return x if y.v else t_not(x)
    if type(a) is Term or type(b) is Term:
        if type(a) is not Term:
            a, b = b, a
        return Term('is', (a, b), 'bool')
    return FALSE


def contains(I, st, c, v, node):
    c = st.simp(c)
    if type(c) is Ite:
        return I.lift(st, c, lambda s, x: contains(I, s, x, v, node))
    v = st.simp(v)
    if type(c) is Ref:
        o = st.get(c.oid)
        if o.kind == 'inst' and type(o.cls) is Ref:
            m = I.find_user_method(st, c, '__contains__')
            if m is not None:
                return I.call(st, Bound(m, c), [v], {}, node)
        k = kind_of(I, st, c)
        if type(v) is Ite and k in ('dict', 'set'):
            return I.lift(st, v, lambda s, x: contains(I, s, c, x, node))
        if o.kind == 'class' and o.data.enum:
            if type(v) is Ref:
                return cbool(st.get(v.oid).cls == c)
            return FALSE
        if o.kind == 'inst' and type(o.cls) is Ref and st.get(o.cls.oid).data.enum and 'Flag' in st.get(o.cls.oid).data.enum:
            if type(v) is Ref and st.get(v.oid).cls == o.cls:
                x, y = st.get(v.oid).attrs['_value_'], o.attrs['_value_']
                return cbool((x.v & y.v) == x.v)
            if type(v) is Ref:
                I.raise_bi(st, 'TypeError', node, 'unsupported operand type(s) for in')
            return Term('in', (v, c), 'bool')
        if k == 'dict':
            if '~open' in o.attrs:
                r = dict_has(I, st, o.data, v, node)
                return r if r == TRUE else Term('in', (v, c), 'bool')
            return dict_has(I, st, o.data, v, node)
        if k == 'set':
            return set_has(I, st, o.data, v, node)
        if k == 'list':
            r = FALSE
            for e in o.data:
                q = I.truth(st, eq_values(I, st, e.v, v, node), node)
                if e.many and q != FALSE:
                    q = Term('among', (e.v, v), 'bool')
                r = I.c_or(I.c_and(q, conj(e.g)), r)
                if r == TRUE:
                    return r
            return st.simp(r)
        if o.kind == 'range':
            a, b, s = o.data
            if all(type(x) is Const for x in (a, b, s)):
                x = st.resolve(v)
                if type(x) is Const:
                    return cbool(x.v in range(a.v, b.v, s.v)) if isinstance(x.v, (int, float)) else FALSE
                if s.v == 1 and ty_of(x) == 'int':
                    return I.c_and(t_not(n_lt(x, a)), n_lt(x, b))
            return Term('in', (v, c), 'bool')
        if o.kind in ('gen', 'iter', 'lazy') or I.find_method(st, c, '__iter__') is not None and o.kind == 'inst' and type(o.cls) is Ref:
            es = I.entries(st, c, node)
            r = FALSE
            for e in es or []:
                r = I.c_or(I.c_and(I.truth(st, eq_values(I, st, e.v, v, node), node), conj(e.g)), r)
            return r
        return Term('in', (v, c), 'bool')
    if type(c) is Tup:
        r = FALSE
        for x in c.items:
            r = I.c_or(I.truth(st, eq_values(I, st, x, v, node), node), r)
            if r == TRUE:
                return r
        return r
    if type(c) is Const and isinstance(c.v, str):
        x = st.resolve(v)
        if type(x) is Const:
            if not isinstance(x.v, str):
                I.raise_bi(st, 'TypeError', node, "'in <string>' requires string as left operand")
            return cbool(x.v in c.v)
        return Term('in', (v, c), 'bool')
    if type(c) is Const:
        I.raise_bi(st, 'TypeError', node, 'argument of type %r is not iterable' % type(c.v).__name__)
    if type(c) is Term and c.op == 'cat' and type(v) is Const and isinstance(v.v, str):
        if any(type(p) is Const and v.v in p.v for p in c.args):
            return TRUE
        if v.v and all(type(p) is Const or m_str.safe_piece(p) and m_str.leaf_kind(p) in ('int', None) for p in c.args) and \
                not any(ch in '0123456789' for ch in v.v) and not any(v.v in p.v for p in c.args if type(p) is Const):
            return FALSE
    return Term('in', (v, c), 'bool')


# -------------------------------------------------------------- operators

DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__',
          'Pow': '__pow__', 'BitOr': '__or__', 'BitAnd': '__and__', 'BitXor': '__xor__', 'LShift': '__lshift__', 'RShift': '__rshift__', 'MatMult': '__matmul__'}
PYOP = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
    'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b, 'Pow': lambda a, b: a ** b, 'BitOr': lambda a, b: a | b,
    'BitAnd': lambda a, b: a & b, 'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b,
}


def as_num(v):
    if type(v) is Term and v.ty == 'bool':
        return ite(v, Const(1), Const(0))
    return v


def binop(I, st, op, a, b, node):
    a, b = st.simp(a), st.simp(b)
    if type(a) is Ite or type(b) is Ite:
        if I.pure_scalar(a) and I.pure_scalar(b) and ty_of(a) in NUM and ty_of(b) in NUM and op in ('Add', 'Sub', 'Mult'):
            return map_ite2(a, b, lambda x, y: binop(I, st, op, x, y, node))
        if type(a) is Ite:
            return I.lift(st, a, lambda s, x: binop(I, s, op, x, b, node))
        return I.lift(st, b, lambda s, x: binop(I, s, op, a, x, node))
    a, b = st.resolve(a), st.resolve(b)
    if op == 'Mod' and type(a) is Const and isinstance(a.v, str):
        return m_str.percent(I, st, a.v, b, node)
    if op in ('Div', 'FloorDiv', 'Mod') and I.listeners:
        I.emit('division', st=st, op=op, num=a, den=b, node=node)
    if type(a) is Const and type(b) is Const:
        try:
            r = PYOP[op](a.v, b.v)
            if isinstance(r, (str, bytes)) and len(r) > 100000 or isinstance(r, int) and r.bit_length() > 4096:
                return Term(op, (a, b), type(r).__name__)
            return Const(r)
        except ZeroDivisionError as e:
            I.raise_bi(st, 'ZeroDivisionError', node, str(e))
        except (TypeError, ValueError, OverflowError) as e:
            I.raise_bi(st, type(e).__name__, node, str(e))
    r = user_op(I, st, op, a, b, node)
    if r is not None:
        return r
    ka, kb = kind_of(I, st, a), kind_of(I, st, b)
    if ka == 'list' and kb == 'list' and op == 'Add':
        return I.new_list_entries(st, list(st.get(a.oid).data) + list(st.get(b.oid).data))
    if (ka == 'list' and kb is None or kb == 'list' and ka is None) and op == 'Mult':
        l, n = (a, b) if ka == 'list' else (b, a)
        if type(n) is Const:
            return I.new_list_entries(st, list(st.get(l.oid).data) * n.v)
        if ty_of(n) in NUM:
            return repeat_list(I, st, l, n)
    if type(a) is Tup and type(b) is Tup and op == 'Add':
        return Tup(a.items + b.items)
    if op == 'Mult' and (type(a) is Tup and type(b) is Const or type(b) is Tup and type(a) is Const):
        t, n = (a, b) if type(a) is Tup else (b, a)
        return Tup(t.items * n.v)
    if ka == 'set' and kb == 'set' and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
        c = st.get(a.oid).cls
        return set_bin(I, st, op, a, b, node, c.name if type(c) is Bi and c.name in ('set', 'frozenset') else 'set')
    if ka == 'dict' and kb == 'dict':
        if is_counter(I, st, a) and op in ('Add', 'Sub', 'BitAnd', 'BitOr'):
            return counter_bin(I, st, op, a, b, node)
        if op == 'BitOr':
            r = st.new(Obj('dict', st.get(a.oid).cls, {}, dict(st.get(a.oid).data)))
            dict_update(I, st, r, b, node, True)
            return r
    ta, tb = ty_of(a), ty_of(b)
    if ta in NUM and tb in NUM:
        return num_op(I, st, op, as_num(a), as_num(b), node)
    if ta == 'str' and tb == 'str' and op == 'Add':
        return s_cat([a, b])
    if op == 'Mult' and (ta == 'str' and tb in NUM or tb == 'str' and ta in NUM):
        return Term('strmul', (a, b) if ta == 'str' else (b, a), 'str')
    if op == 'Mod' and ta == 'str':
        return Term('percent', (a, b), 'str')
    known = set(NUM) | {'str', 'NoneType', 'tuple'}
    fam = lambda v, t, k: 'num' if t in NUM else (t if t in known else k)
    fa, fb = fam(a, ta, ka), fam(b, tb, kb)
    plain = lambda v: type(v) is Ref and st.get(v.oid).kind in ('func', 'class', 'module', 'match', 'gen', 'lazy', 'iter') or \
        type(v) is Ref and st.get(v.oid).kind == 'inst' and type(st.get(v.oid).cls) is Ref and not I.has_ext_base(st, v)
    if (fa is not None or plain(a)) and (fb is not None or plain(b)):
        I.raise_bi(st, 'TypeError', node, 'unsupported operand type(s) for %s: %s and %s' % (op, fa or 'object', fb or 'object'))
    return Term(op, (a, b), binop_ty(op, a, b))


def binop_ty(op, a, b):
    ta, tb = ty_of(a), ty_of(b)
    if op == 'Div':
        return None
    if ta == tb == 'str':
        return 'str'
    return None


def repeat_list(I, st, l, n):
    """[x] * n for symbolic n with a known upper bound: guarded copies"""
    lo, hi = interval(n)
    d = st.get(l.oid).data
    if hi == INF or hi > 8 or len(d) * hi > 64:
        return I.new_list_entries(st, [Entry(e.v, e.g, True) for e in d])
    out = []
    for i in range(int(hi)):
        c = n_lt(Const(i), n)
        for e in d:
            g = I.c_and(conj(e.g), c)
            if st.simp(g) != FALSE:
                out.append(Entry(e.v, glits(st.simp(g)), e.many))
    return I.new_list_entries(st, out)


def num_op(I, st, op, a, b, node):
    if type(a) is Ite or type(b) is Ite:
        if type(a) is Ite:
            return I.lift(st, a, lambda s, x: num_op(I, s, op, x, b, node))
        return I.lift(st, b, lambda s, x: num_op(I, s, op, a, x, node))
    if op == 'Add':
        return n_add(a, b)
    if op == 'Sub':
        return n_sub(a, b)
    if op == 'Mult':
        return n_mul(a, b)
    if op in ('FloorDiv', 'Mod', 'Div'):
        if type(b) is Const and b.v == 0:
            I.raise_bi(st, 'ZeroDivisionError', node, 'division by zero')
        if op != 'Div' and type(b) is Const and isinstance(b.v, int) and b.v > 0 and ty_of(a) == 'int':
            q, r = n_qr(a, b.v)
            return q if op == 'FloorDiv' else r
        if op == 'Div':
            if b == Const(1):
                return Term('tofloat', (a,), 'float') if ty_of(a) == 'int' else a
            return Term('div', (a, b), 'float')
        return Term(op.lower(), (a, b), num_ty(a, b))
    if op == 'LShift' and type(b) is Const:
        return n_mul(a, Const(1 << b.v))
    if op == 'RShift' and type(b) is Const:
        return num_op(I, st, 'FloorDiv', a, Const(1 << b.v), node)
    if op == 'Pow':
        if type(b) is Const and b.v == 2:
            return n_mul(a, a)
        lo, hi = interval(a)
        rng = None
        if lo > 0:
            rng = (0, INF)
            if interval(b)[0] >= 0 and ty_of(a) == 'int':
                rng = (1, INF)
        elif lo >= 0:
            rng = (0, INF)
        return Term('pow', (a, b), 'int' if ty_of(a) == ty_of(b) == 'int' and interval(b)[0] >= 0 else 'float', rng)
    if op == 'BitAnd':
        for x, y in ((a, b), (b, a)):
            if type(y) is Const and y.v >= 0 and (y.v & (y.v + 1)) == 0:
                return num_op(I, st, 'Mod', x, Const(y.v + 1), node)
            if type(y) is Const and y.v > 0 and (y.v & (y.v - 1)) == 0:
                # single bit
                q = num_op(I, st, 'FloorDiv', x, y, node)
                r = num_op(I, st, 'Mod', q, Const(2), node)
                return n_mul(r, y)
            if type(y) is Const and y.v > 0:
                low = y.v & -y.v
                m = y.v // low
                if (m & (m + 1)) == 0:
                    q = num_op(I, st, 'FloorDiv', x, Const(low), node)
                    return n_mul(num_op(I, st, 'Mod', q, Const(m + 1), node), Const(low))
    if op == 'BitOr':
        # disjoint bit ranges add
        for x, y in ((a, b), (b, a)):
            lo, hi = interval(y)
            c, p = lin_parts(x)
            if lo >= 0 and hi != INF and type(x) is Term and interval(x)[0] >= 0:
                k = 1
                while k <= hi:
                    k *= 2
                if isinstance(c, int) and c % k == 0 and all(isinstance(q, int) and q % k == 0 for q in p.values()):
                    return n_add(x, y)
    lo, hi = interval(a)
    return Term(op.lower(), (a, b), 'int')


def user_op(I, st, op, a, b, node):
    """operator methods of analysed classes and builtin payload classes"""
    nm = DUNDER[op]
    for x, y, n in ((a, b, nm), (b, a, '__r' + nm[2:])):
        if type(x) is Ref:
            o = st.get(x.oid)
            if o.kind == 'inst' and type(o.cls) is Ref:
                ci = st.get(o.cls.oid).data
                m = I.class_attr(st, o.cls, n)
                if m is not None:
                    if type(m) is Bi and type(o.data) in (dict, list):
                        if n == nm:
                            r = call_dunder(I, st, x, m.name.split('.')[-1], [y], node)
                            if r != Bi('NotImplemented'):
                                return r
                        continue
                    r = I.call(st, I.bind_attr(st, m, x, o.cls, node), [y], {}, node)
                    if r != Bi('NotImplemented'):
                        return r
                elif ci.enum and 'Flag' in ci.enum and op in ('BitOr', 'BitAnd', 'BitXor'):
                    if type(y) is Ref and st.get(y.oid).cls == o.cls:
                        v = PYOP[op](o.attrs['_value_'].v, st.get(y.oid).attrs['_value_'].v)
                        return I.enum_member(st, o.cls, Const(v), node)
        elif type(x) is Tup and x.cls is not None:
            m = I.class_attr(st, x.cls, n)
            if type(m) is Ref:
                return I.call(st, m, [x, y], {}, node)
    return None


def call_dunder(I, st, x, name, args, node):
    ops = {v: k for k, v in DUNDER.items()}
    if name in ops and kind_of(I, st, x) == 'dict' and is_counter(I, st, x):
        return counter_bin(I, st, ops[name], x, args[0], node)
    if name in ops and kind_of(I, st, x) == 'set':
        if kind_of(I, st, args[0]) != 'set':
            return Bi('NotImplemented')
        return set_bin(I, st, ops[name], x, args[0], node)
    if name in ops and kind_of(I, st, x) == 'list' and ops[name] == 'Add':
        return I.new_list_entries(st, list(st.get(x.oid).data) + list(st.get(args[0].oid).data))
    return Bi('NotImplemented')


def inplace(I, st, op, a, b, node):
    a = st.simp(a)
    if type(a) is Ite and not I.pure_scalar(a):
        return I.lift(st, a, lambda s, x: inplace(I, s, op, x, b, node))
    if type(a) is Ref:
        o = st.get(a.oid)
        nm = '__i' + DUNDER[op][2:]
        k = kind_of(I, st, a)
        if o.kind == 'inst' and type(o.cls) is Ref:
            m = I.class_attr(st, o.cls, nm)
            if type(m) is Ref:
                return I.call(st, I.bind_attr(st, m, a, o.cls, node), [b], {}, node)
        b = st.simp(b)
        if type(b) is Ite:
            return I.lift(st, b, lambda s, x: inplace(I, s, op, a, x, node))
        if k == 'list' and op == 'Add':
            mut(I, st, a, 'in-place extend', node)
            return list_extend(I, st, a, b, node)
        if k == 'set' and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            c = o.cls
            if c == Bi('frozenset'):
                return binop(I, st, op, a, b, node)
            if kind_of(I, st, b) == 'set':
                mut(I, st, a, 'in-place ' + op, node)
                return set_bin(I, st, op, a, b, node, target=a)
        if k == 'dict' and is_counter(I, st, a) and op in ('Add', 'Sub', 'BitAnd', 'BitOr'):
            # Counter defines the in-place form unless the class overrides it
            return counter_inplace(I, st, op, a, b, node)
        if k == 'dict' and op == 'BitOr':
            dict_update(I, st, a, b, node)
            return a
    return binop(I, st, op, a, b, node)


def list_extend(I, st, ref, it, node):
    it = st.simp(it)
    if type(it) is Ref and kind_of(I, st, it) == 'list':
        st.w(ref.oid).data.extend(list(st.get(it.oid).data))
        return ref

    def body(s, v):
        s.w(ref.oid).data.append(Entry(v))
        return None
    outs = I.iterate(st, it, body, node)
    ns = [(o[1], None) for o in outs if o[0] == 'n']
    if not ns:
        raise PathDead()
    m = merge_states(ns)[0] if len(ns) > 1 else ns[0][0]
    if m is not st:
        st.become(m)
    return ref


def unop(I, st, op, v, node):
    def one(s, x):
        x = s.resolve(x)
        if type(x) is Const:
            try:
                return Const({'USub': lambda q: -q, 'UAdd': lambda q: +q, 'Invert': lambda q: ~q}[op](x.v))
            except TypeError as e:
                I.raise_bi(s, 'TypeError', node, str(e))
        if type(x) is Ref:
            o = s.get(x.oid)
            nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
            if o.kind == 'inst' and type(o.cls) is Ref:
                m = I.class_attr(s, o.cls, nm)
                if type(m) is Ref:
                    return I.call(s, I.bind_attr(s, m, x, o.cls, node), [], {}, node)
                ci = s.get(o.cls.oid).data
                if ci.enum and 'Flag' in ci.enum and op == 'Invert':
                    allv = 0
                    for m in ci.members.values():
                        allv |= s.get(m.oid).attrs['_value_'].v
                    return I.enum_member(s, o.cls, Const(allv & ~o.attrs['_value_'].v), node)
            if is_counter(I, s, x) and op in ('USub', 'UAdd'):
                return counter_sign(I, s, x, op == 'USub', node)
            if not (o.kind == 'ext' or o.kind == 'inst' and I.has_ext_base(s, x)):
                I.raise_bi(s, 'TypeError', node, 'bad operand type for unary %s' % op)
        if ty_of(x) in NUM:
            x = as_num(x)
            if op == 'USub':
                return map_ite(x, n_neg)
            if op == 'UAdd':
                return x
            return map_ite(x, lambda q: n_sub(n_neg(q), Const(1)))
        if ty_of(x) in ('str', 'NoneType', 'tuple'):
            I.raise_bi(s, 'TypeError', node, 'bad operand type for unary %s' % op)
        return Term(op, (x,))
    return lift1(I, st, v, one)
