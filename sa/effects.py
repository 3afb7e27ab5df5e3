"""Effect analysis: what a call may have changed in objects that existed before it."""
from .lib import *

__all__ = ['guarded', 'refs_in', 'children', 'reach', 'is_counter', 'count_map', 'same_counts', 'set_members', 'new_keys', 'unchanged', 'Effects']

STOP = ('class', 'func', 'module', 'env')


def guarded(g, v, other):
    for c, p in reversed(tuple(g)):
        v = Ite(c, v, other) if p else Ite(c, other, v)
    return v


def refs_in(v, out):
    t = type(v)
    if t is Ref:
        out.append(v.oid)
    elif t is Tup:
        for x in v.items:
            refs_in(x, out)
    elif t is Ite:
        refs_in(v.a, out)
        refs_in(v.b, out)
    elif t is Bound:
        refs_in(v.self, out) if hasattr(v, 'self') else None


def children(st, oid):
    o = st.get(oid)
    out = []
    for x in o.attrs.values():
        if isinstance(x, V):
            refs_in(x, out)
    d = o.data
    if type(d) is list:
        for e in d:
            if isinstance(e, Entry):
                refs_in(e.v, out)
    elif type(d) is dict:
        for e in d.values():
            if isinstance(e, DEntry):
                refs_in(e.k, out)
                refs_in(e.v, out)
    return out


def reach(st, roots, stop=STOP):
    """objects reachable through attributes and elements"""
    seen, todo = [], []
    for r in roots:
        refs_in(r, todo) if isinstance(r, V) else todo.append(r)
    mark = set()
    while todo:
        x = todo.pop()
        if x in mark or not st.has(x):
            continue
        mark.add(x)
        o = st.get(x)
        if o.kind in stop:
            continue
        seen.append(x)
        todo.extend(children(st, x))
    return seen


def is_counter(S, st, o):
    c = o.cls
    if type(c) is Bi:
        return 'Counter' in c.name
    if type(c) is Ref:
        return any(type(b) is Bi and 'Counter' in b.name for b in S.I.mro(S.base, c)) if hasattr(S.I, 'mro') else True
    return False


def count_map(S, st, ref):
    """key -> count of a counter-like object, absent entries as 0"""
    o = st.get(ref.oid)
    if type(o.data) is not dict:
        return None
    return {k: guarded(e.g, st.simp(e.v), Const(0)) for k, e in o.data.items() if isinstance(e, DEntry)}


def same_counts(S, st, a, b):
    """two count maps agree: True/False/None"""
    if a is None or b is None:
        return None
    res = True
    for k in set(a) | set(b):
        x, y = a.get(k, Const(0)), b.get(k, Const(0))
        r = same_value(st.simp(x), st.simp(y), st.guards)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def new_keys(S, st0, st1, oid):
    """keys a counter-like object has for certain now and could not have before"""
    a, b = st0.get(oid), st1.get(oid)
    if a is b or type(a.data) is not dict or type(b.data) is not dict:
        return []
    return [k for k, e in b.data.items() if isinstance(e, DEntry) and not e.g and k not in a.data]


def set_members(S, st, oid):
    """key -> presence condition (Const or Ite over conditions) of a set"""
    o = st.get(oid)
    es = S.I.set_elems(st, o)
    if es is None:
        return None
    m = {}
    for e in es:
        if e.many:
            return None
        k = S.I.keyof(st, e.v)
        m[k] = guarded(e.g, Const(1), m.get(k, Const(0)))
    return m


def unchanged(S, st0, st1, oid, counter=None):
    """True: same content in both states; False: definitely different; None: cannot tell.
    Returns (verdict, text)"""
    a, b = st0.get(oid), st1.get(oid)
    if a is b:
        return True, ''
    res = True
    kind = m_coll.kind_of(S.I, st0, Ref(oid)) or a.kind
    for n in set(a.attrs) | set(b.attrs):
        x, y = a.attrs.get(n), b.attrs.get(n)
        if x is None or y is None:
            return (False, 'attribute %s %s' % (n, 'appeared' if x is None else 'vanished')) if not n.startswith('~') else (None, n)
        if isinstance(x, V) and isinstance(y, V):
            x, y = st0.simp(x), st1.simp(y)
            if x == y:
                continue
            r = same_value(x, y, st1.guards)
            if r is None and type(x) in (Const, Ref, Tup) and type(y) in (Const, Ref, Tup):
                r = False
            if r is False:
                return False, 'attribute %s was %r and became %r' % (n, x, y)
            if r is None:
                res = None
        elif x is not y and x != y:
            res = None
    if kind == 'dict':
        x, y = count_map(S, st0, Ref(oid)), count_map(S, st1, Ref(oid))
        if counter is None:
            counter = is_counter(S, st0, a)
        if counter:
            r = same_counts(S, st1, x, y)
        else:
            r = True
            if set(x) != set(y):
                ga = {k for k in x if not a.data[k].g}
                gb = {k for k in y if not b.data[k].g}
                r = False if (ga - set(y)) or (gb - set(x)) else None
            else:
                for k in x:
                    q = True if x[k] == y[k] else same_value(x[k], y[k], st1.guards)
                    if q is None and type(x[k]) in (Const, Ref, Tup) and type(y[k]) in (Const, Ref, Tup):
                        q = False
                    if q is not True:
                        r = q
                        break
        if r is False:
            return False, 'entries were %r and became %r' % (x, y)
        if r is None:
            res = None
    elif kind == 'list':
        if a.data != b.data:
            x, y = a.data, b.data
            if any(e.g or e.many for e in x + y):
                res = None
            elif len(x) != len(y):
                return False, 'length was %d and became %d' % (len(x), len(y))
            else:
                for e, f in zip(x, y):
                    p, q = st0.simp(e.v), st1.simp(f.v)
                    if p == q:
                        continue
                    r = same_value(p, q, st1.guards)
                    if r is None and type(p) in (Const, Ref, Tup) and type(q) in (Const, Ref, Tup):
                        r = False
                    if r is False:
                        return False, 'element was %r and became %r' % (p, q)
                    if r is None:
                        res = None
    elif kind == 'set':
        x, y = set_members(S, st0, oid), set_members(S, st1, oid)
        if x is None or y is None:
            res = None
        else:
            for k in set(x) | set(y):
                p, q = x.get(k, Const(0)), y.get(k, Const(0))
                r = True if p == q else same_value(p, q, st1.guards)
                if r is False:
                    return False, 'membership of %r changed' % (k,)
                if r is None:
                    res = None
    elif a.data != b.data:
        res = None
    return res, ''


class Effects:
    """collects mutation sites per object during a run"""

    def __init__(self, S, only=None):
        self.S = S
        self.only = only
        self.sites = {}

    def __call__(self, k, d):
        if k == 'mutate' and (self.only is None or d['oid'] in self.only):
            self.sites.setdefault(d['oid'], []).append((d['what'], d['node'], tuple(d.get('stack') or ())))

    def where(self, oid):
        r = self.sites.get(oid)
        if not r:
            return '', ''
        what, node, stack = r[-1]
        chain = ' -> '.join(getattr(x, 'qual', str(x)) for x in stack[-4:])
        return self.S.loc(node), '%s in %s' % (what, chain)
