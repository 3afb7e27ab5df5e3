"""Abstract heap with copy-on-write forking and guarded merging."""
from .values import *

_oid = [0]


def new_oid():
    _oid[0] += 1
    return _oid[0]


class Obj:
    """A heap object.

    kind   inst | list | dict | set | func | class | module | env | iter |
           gen | prop | static | classm | ext | xml ...
    cls    Ref of the class (analysed classes) or the name of a builtin type
    attrs  attribute dictionary (instance dict, class namespace, globals, locals)
    data   payload: list of Entry (list), dict key -> DEntry (dict),
           list of SetStep (set), anything else by kind
    """
    __slots__ = ('kind', 'cls', 'attrs', 'data', 'own', 'site')

    def __init__(self, kind, cls=None, attrs=None, data=None, site=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.data = data
        self.own = None
        self.site = site

    def clone(self):
        o = Obj(self.kind, self.cls, dict(self.attrs), None, self.site)
        d = self.data
        if type(d) is list:
            d = list(d)
        elif type(d) is dict:
            d = dict(d)
        o.data = d
        return o

    def __repr__(self):
        return 'Obj(%s,%r)' % (self.kind, self.cls)


class Entry:
    """list entry: a value present under the literals `g`; `many` marks an
    unknown number of entries"""
    __slots__ = ('v', 'g', 'many')

    def __init__(self, v, g=(), many=False):
        self.v = v
        self.g = g
        self.many = many

    def __eq__(self, o):
        return self.v == o.v and self.g == o.g and self.many == o.many

    def __hash__(self):
        return hash((self.v, self.g))

    def __repr__(self):
        return '%r%s%s' % (self.v, ' if %r' % (self.g,) if self.g else '', '*' if self.many else '')


class DEntry:
    """dict entry: key value, value, presence literals"""
    __slots__ = ('k', 'v', 'g')

    def __init__(self, k, v, g=()):
        self.k = k
        self.v = v
        self.g = g

    def __eq__(self, o):
        return self.k == o.k and self.v == o.v and self.g == o.g

    def __repr__(self):
        return '%r: %r%s' % (self.k, self.v, ' if %r' % (self.g,) if self.g else '')


class PathDead(Exception):
    """the current abstract path has no continuation"""


class State:
    __slots__ = ('base', 'layers', 'top', 'guards', 'lits', 'facts', 'own')

    def __init__(self, base=None):
        self.base = base if base is not None else {}
        self.layers = ()
        self.top = {}
        self.guards = ()      # decided literals, oldest first
        self.lits = {}        # condition -> bool
        self.facts = {}       # term -> Const
        self.own = object()

    # -- heap ------------------------------------------------------------
    def get(self, oid):
        o = self.top.get(oid)
        if o is not None:
            return o
        for l in reversed(self.layers):
            o = l.get(oid)
            if o is not None:
                return o
        return self.base[oid]

    def has(self, oid):
        if oid in self.top or oid in self.base:
            return True
        return any(oid in l for l in self.layers)

    def w(self, oid):
        o = self.top.get(oid)
        if o is not None and o.own is self.own:
            return o
        o = self.get(oid).clone()
        o.own = self.own
        self.top[oid] = o
        return o

    def new(self, obj):
        oid = new_oid()
        obj.own = self.own
        self.top[oid] = obj
        return Ref(oid)

    def _freeze(self):
        if self.top:
            ls = list(self.layers)
            ls.append(self.top)
            while len(ls) >= 2 and len(ls[-2]) < 2 * len(ls[-1]):
                a = ls.pop()
                b = dict(ls.pop())
                b.update(a)
                ls.append(b)
            self.layers = tuple(ls)
            self.top = {}
        self.own = object()

    def copy(self):
        self._freeze()
        s = State.__new__(State)
        s.base = self.base
        s.layers = self.layers
        s.top = {}
        s.guards = self.guards
        s.lits = self.lits
        s.facts = self.facts
        s.own = object()
        return s

    def become(self, o):
        self.base = o.base
        self.layers = o.layers
        self.top = o.top
        self.guards = o.guards
        self.lits = o.lits
        self.facts = o.facts
        self.own = o.own

    # -- conditions --------------------------------------------------------
    def assume(self, c, pol):
        """add literal; returns False when contradictory"""
        while type(c) is Term and c.op == 'not':
            c = c.args[0]
            pol = not pol
        if type(c) is Const:
            return bool(c.v) == pol
        k = self.lits.get(c)
        if k is not None:
            return k == pol
        self.lits = dict(self.lits)
        self.lits[c] = pol
        self.guards = self.guards + ((c, pol),)
        if pol and type(c) is Term:
            if c.op == 'eq' and type(c.args[1]) is Const:
                self.facts = dict(self.facts)
                self.facts[c.args[0]] = c.args[1]
            elif c.op == 'is' and type(c.args[1]) is Const:
                self.facts = dict(self.facts)
                self.facts[c.args[0]] = c.args[1]
            elif c.op == 'eq0':
                d = c.args[0]
                cc, p = lin_parts(d)
                if len(p) == 1:
                    (t, k), = p.items()
                    if isinstance(k, int) and isinstance(cc, int) and cc % k == 0:
                        self.facts = dict(self.facts)
                        self.facts[t] = Const(-cc // k)
        return True

    def known(self, c):
        """True / False / None for a condition"""
        pol = True
        while type(c) is Term and c.op == 'not':
            c = c.args[0]
            pol = not pol
        if type(c) is Const:
            return bool(c.v) == pol
        k = self.lits.get(c)
        if k is None and self.facts and type(c) is Term:
            if c.op in ('eq', 'is') and c.args[0] in self.facts and type(c.args[1]) is Const:
                f = self.facts[c.args[0]]
                if f != c.args[1]:
                    k = f.v == c.args[1].v
                else:
                    k = True
            elif c.op in ('eq0', 'lt0'):
                d = self.resolve(c.args[0])
                if type(d) is Const:
                    k = d.v == 0 if c.op == 'eq0' else d.v < 0
                elif d is not c.args[0]:
                    r = n_eq(d, Const(0)) if c.op == 'eq0' else n_lt(d, Const(0))
                    if type(r) is Const:
                        k = r.v
        return None if k is None else (k == pol)

    def resolve(self, v):
        """replace a term by the constant it is known to equal"""
        if type(v) is Term and self.facts:
            f = self.facts.get(v)
            if f is not None:
                return f
            if v.op == 'lin':
                c, p = lin_parts(v)
                ch = False
                out = {}
                for t, k in p.items():
                    f = self.facts.get(t)
                    if f is not None and is_num_const(f):
                        c += k * f.v
                        ch = True
                    else:
                        out[t] = k
                if ch:
                    return mk_lin(c, out, v.ty)
            if v.op in ('int', 'str') and v.args[0] in self.facts:
                f = self.facts[v.args[0]]
                try:
                    return Const(int(f.v) if v.op == 'int' else str(f.v))
                except (ValueError, TypeError):
                    return v
        return v

    def simp(self, v):
        """drop alternatives excluded by the current guards"""
        while type(v) is Ite:
            k = self.known(v.c)
            if k is None:
                return self._simp_deep(v)
            v = v.a if k else v.b
        return v

    def _simp_deep(self, v):
        if type(v) is not Ite:
            return v
        k = self.known(v.c)
        if k is not None:
            return self._simp_deep(v.a if k else v.b)
        a, b = self._simp_deep(v.a), self._simp_deep(v.b)
        if a is v.a and b is v.b:
            return v
        return ite(v.c, a, b)


# ---------------------------------------------------------------- merging

def rel(lits, n):
    return lits[n:]


def restrict(v, c, pol):
    """condition v knowing that condition c is pol"""
    if v is c:
        return TRUE if pol else FALSE
    if type(v) is Ite:
        if v.c is c:
            return restrict(v.a if pol else v.b, c, pol)
        a, b = restrict(v.a, c, pol), restrict(v.b, c, pol)
        if a is v.a and b is v.b:
            return v
        return ite(v.c, a, b)
    if type(v) is Term and v.op == 'not' and v.args[0] is c:
        return FALSE if pol else TRUE
    return v


def rest_lits(l, c, pol):
    """literals left of l when c is pol; None when l is then impossible"""
    out = []
    for cc, p in l:
        if cc is c:
            if p != pol:
                return None
            continue
        if type(cc) is Ite:
            r = restrict(cc, c, pol)
            if type(r) is Const:
                if bool(r.v) != p:
                    return None
                continue
            while type(r) is Term and r.op == 'not':
                r, p = r.args[0], not p
            out.append((r, p))
            continue
        out.append((cc, p))
    return tuple(out)


def first_atom(ls):
    c = None
    for l in ls:
        for cc, _ in l:
            if type(cc) is not Ite:
                return cc
            if c is None:
                c = cc
    while type(c) is Ite:
        c = c.c
    return c


def disj(ls, budget):
    """the condition that one of the literal lists holds; None when too large"""
    if any(not l for l in ls):
        return TRUE
    budget[0] -= 1
    if budget[0] < 0:
        return None
    c = first_atom(ls)
    t = [x for x in (rest_lits(l, c, True) for l in ls) if x is not None]
    f = [x for x in (rest_lits(l, c, False) for l in ls) if x is not None]
    a = disj(t, budget) if t else FALSE
    b = disj(f, budget) if f else FALSE
    if a is None or b is None:
        return None
    return ite(c, a, b)


# Path-insensitive mode: after a merge the conditions of the alternatives are
# forgotten (one fresh atom per merge) and values are kept as small sets of
# alternatives, larger ones widened to an interval or to an unknown value.
FLAT = [False]
_flat = [0]


# Provenance of forgotten conditions: values for which OLD[0] answers true (left
# over from an earlier phase of the analysis) mark the atoms that replace them.
OLD = [None]


def old_mark(xs):
    return ('old',) if OLD[0] is not None and any(OLD[0](x) for x in xs) else ()


def atom(*xs):
    _flat[0] += 1
    return Term('fork', (_flat[0],) + old_mark(xs), 'bool')


class Old:
    """recognises values computed from the given leaves or created up to a point in time"""

    def __init__(self, names=(), upto=None):
        self.names = set(names)
        self.upto = _flat[0] if upto is None else upto
        self.known = {}

    def __call__(self, v):
        t = type(v)
        if t is Term or t is Ite:
            r = self.known.get(v)
            if r is None:
                r = self.known[v] = self.term(v)
            return r
        if t is Tup:
            return any(self(x) for x in v.items)
        if t is tuple:
            return any(self(x) for x in v)
        return False

    def term(self, v):
        if type(v) is Ite:
            return self(v.c) or self(v.a) or self(v.b)
        if v.op == 'leaf':
            return v.args[0] in self.names
        if v.op in ('fork', 'any') and v.args and type(v.args[0]) is int:
            return v.args[0] <= self.upto or len(v.args) > 1
        return any(self(x) for x in v.args)


def small(v, limit=16):
    """number of gates of a value, stopping above the limit"""
    n = 0
    todo = [v]
    while todo:
        x = todo.pop()
        if type(x) is Ite:
            n += 1
            if n > limit:
                return False
            todo += (x.a, x.b, x.c)
    return True


def flat_leaves(vals):
    out = {}
    seen = set()
    todo = list(reversed(vals))
    while todo:
        x = todo.pop()
        if type(x) is Ite:
            if x not in seen:
                seen.add(x)
                todo += (x.b, x.a)
        else:
            out[x] = None
    return list(out)


def flatten(v):
    if small(v):
        return v
    ls = flat_leaves([v])
    if all(ty_of(x) in ('int', 'bool') for x in ls) and len(ls) > 4 or len(ls) > 12:
        ty = ty_of(ls[0]) if len({ty_of(x) for x in ls}) == 1 else None
        rng = None
        if ty in ('int', 'bool'):
            b = [interval(x) for x in ls]
            rng = (min(x for x, _ in b), max(x for _, x in b))
        _flat[0] += 1
        return Term('any', (_flat[0],) + old_mark((v,)), ty, rng)
    r = ls[-1]
    for x in reversed(ls[:-1]):
        r = ite(atom(v), x, r)
    return r


def flat_g(g):
    if len(g) > 2 or any(not small(c, 4) for c, _ in g):
        return ((atom(*[c for c, _ in g]), True),)
    return g


def build(alts):
    """alts: [(literals, value)], disjoint; -> gated value"""
    first = alts[0][1]
    for _, v in alts[1:]:
        if v is not first and v != first:
            break
    else:
        return first
    if FLAT[0]:
        return flatten(build2(alts))
    return build2(alts)


def build2(alts):
    first = alts[0][1]
    for _, v in alts[1:]:
        if v is not first and v != first:
            break
    else:
        return first
    c = first_atom([l for l, _ in alts])
    if c is None:
        return Term('phi', tuple(v for _, v in alts))
    t, f = [], []
    for l, v in alts:
        x = rest_lits(l, c, True)
        if x is not None:
            t.append((x, v))
        x = rest_lits(l, c, False)
        if x is not None:
            f.append((x, v))
    if not t:
        return build2(f)
    if not f:
        return build2(t)
    return ite(c, build2(t), build2(f))


def merge_lists(alts, twice=2):
    """alts: [(lits, [Entry])]"""
    r = merge_lists2(alts)
    if FLAT[0] and len(r) > 6:
        r = thin(r, twice)
    return r


def thin(es, most):
    """path-insensitive: a value that occurs many times under some condition occurs at most so often under an unknown one"""
    n = {}
    for e in es:
        n.setdefault(e.v, []).append(e)
    if all(len(x) <= most for x in n.values()):
        return es
    out = []
    for e in es:
        x = n[e.v]
        if len(x) <= most:
            out.append(e)
        elif e is x[0] and not any(not y.g for y in x):
            out += [Entry(e.v, ((atom(*[c for y in x for c, _ in y.g]), True),), e.many)] * most
        elif e is x[0]:
            out += [Entry(e.v, (), e.many)] * 1 + [Entry(e.v, ((atom(*[c for y in x for c, _ in y.g] or [e.v]), True),), e.many)] * (most - 1)
    return out


def merge_lists2(alts):
    base = alts[0][1]
    n = min(len(e) for _, e in alts)
    i = 0
    while i < n and all(e[i] is base[i] or e[i] == base[i] for _, e in alts[1:]):
        i += 1
    prefix = list(base[:i])
    tails = [(l, e[i:]) for l, e in alts]
    if all(not t for _, t in tails):
        return prefix
    k = len(tails[0][1])
    if all(len(t) == k for _, t in tails) and all(
            not x.many and not x.g for _, t in tails for x in t):
        for j in range(k):
            prefix.append(Entry(build([(l, t[j].v) for l, t in tails])))
        return prefix
    # nested growth: one alternative extends another
    for l, t in tails:
        for x in t:
            g = tuple(l) + tuple(g for g in x.g if g not in l)
            prefix.append(Entry(x.v, flat_g(g) if FLAT[0] else g, x.many))
    return prefix


def merge_dicts(alts):
    keys = {}
    for _, d in alts:
        for k in d:
            if k not in keys:
                keys[k] = None
    out = {}
    n = len(alts)
    for k in keys:
        have = [(l, d[k]) for l, d in alts if k in d]
        e0 = have[0][1]
        if len(have) == n and all(e is e0 or e == e0 for _, e in have[1:]):
            out[k] = e0
            continue
        v = build([(l, e.v) for l, e in have])
        if len(have) == n and all(not e.g for _, e in have):
            out[k] = DEntry(e0.k, v)
        else:
            # presence as a gated boolean
            pres = []
            for l, d in alts:
                if k in d:
                    e = d[k]
                    pres.append((l, conj(e.g)))
                else:
                    pres.append((l, FALSE))
            p = build(pres)
            if p == TRUE:
                out[k] = DEntry(e0.k, v)
            elif p != FALSE:
                out[k] = DEntry(e0.k, v, ((p, True),))
    return out


def conj(lits):
    r = TRUE
    for c, p in reversed(lits):
        r = ite(c, r, FALSE) if p else ite(c, FALSE, r)
    return r


def merge_objs(alts):
    """alts: [(lits, Obj)]"""
    o0 = alts[0][1]
    keys = {}
    for _, o in alts:
        for k in o.attrs:
            keys[k] = None
    attrs = {}
    for k in keys:
        vals = [(l, o.attrs.get(k, UNDEF)) for l, o in alts]
        v0 = vals[0][1]
        if all(v is v0 for _, v in vals[1:]):
            attrs[k] = v0
        else:
            attrs[k] = build(vals)
    data = o0.data
    if any(o.data is not data for _, o in alts[1:]):
        td = type(data)
        if o0.kind == 'iter':
            if all(o.data == data for _, o in alts[1:]):
                pass
            else:
                data = dict(data) if td is dict else data
                if td is dict:
                    data['unknown'] = True
        elif td is list and all(type(o.data) is list for _, o in alts):
            data = merge_lists([(l, o.data) for l, o in alts], 1 if type(o0.cls) is Bi and o0.cls.name in ('set', 'frozenset') else 2)
        elif td is dict and all(type(o.data) is dict for _, o in alts):
            if o0.kind in ('gen', 'lazy'):
                d = {}
                for k in data:
                    vs = [o.data.get(k) for _, o in alts]
                    d[k] = vs[0] if all(v == vs[0] for v in vs[1:]) else ('unknown' if k == 'state' else vs[0])
                data = d
            else:
                data = merge_dicts([(l, o.data) for l, o in alts])
        elif all(o.data == data for _, o in alts[1:]):
            pass
        else:
            try:
                data = build([(l, o.data) for l, o in alts])
            except Exception:
                data = None
    r = Obj(o0.kind, o0.cls, attrs, data, o0.site)
    if any(o.cls is not o0.cls and o.cls != o0.cls for _, o in alts[1:]):
        r.cls = build([(l, o.cls) for l, o in alts])
    return r


def merge_states(alts):
    """alts: [(State, extra)] with the same ancestor -> (State, merged extra).
    extra is a value (or None)"""
    if len(alts) == 1:
        return alts[0]
    states = [s for s, _ in alts]
    g0 = states[0].guards
    n = min(len(s.guards) for s in states)
    i = 0
    while i < n and all(s.guards[i] == g0[i] for s in states[1:]):
        i += 1
    lits = [s.guards[i:] for s in states]
    if FLAT[0]:
        was = lits
        lits = []
        pre = ()
        for k in range(len(states) - 1):
            a = atom(*[c for l in was for c, _ in l])
            lits.append(pre + ((a, True),))
            pre = pre + ((a, False),)
        lits.append(pre)
    # layers
    for s in states:
        s._freeze()
    m = min(len(s.layers) for s in states)
    j = 0
    l0 = states[0].layers
    while j < m and all(s.layers[j] is l0[j] for s in states[1:]):
        j += 1
    changes = []
    keys = set()
    for s in states:
        ch = {}
        for l in s.layers[j:]:
            ch.update(l)
        changes.append(ch)
        keys.update(ch)
    out = State.__new__(State)
    out.base = states[0].base
    out.layers = l0[:j]
    top = {}
    prefix = l0[:j]
    base = out.base

    def lookup(oid, ch):
        o = ch.get(oid)
        if o is not None:
            return o
        for l in reversed(prefix):
            o = l.get(oid)
            if o is not None:
                return o
        return base.get(oid)

    for oid in keys:
        objs = [(lits[k], lookup(oid, changes[k])) for k in range(len(states))]
        o0 = objs[0][1]
        if all(o is o0 for _, o in objs[1:]):
            top[oid] = o0
            continue
        objs = [(l, o) for l, o in objs if o is not None]
        if len(objs) == 1:
            top[oid] = objs[0][1]
        else:
            o0 = objs[0][1]
            if all(o is o0 for _, o in objs[1:]):
                top[oid] = o0
            else:
                top[oid] = merge_objs(objs)
    out.top = top
    out.guards = g0[:i]
    # keep literals that hold in every alternative
    common = []
    seen = set()
    for (c, p) in () if FLAT[0] else lits[0]:
        if c not in seen and all((c, p) in l for l in lits[1:]):
            common.append((c, p))
            seen.add(c)
    out.lits = {}
    for c, p in out.guards:
        out.lits[c] = p
    out.guards = out.guards + tuple(common)
    for c, p in common:
        out.lits[c] = p
    cs = set(common)
    d = None if FLAT[0] else disj([tuple(x for x in l if x not in cs) for l in lits], [60])
    if d is not None and type(d) is not Const:
        p = True
        while type(d) is Term and d.op == 'not':
            d, p = d.args[0], not p
        if d not in out.lits:
            out.guards = out.guards + ((d, p),)
            out.lits[d] = p
    f0 = states[0].facts
    out.facts = {k: v for k, v in f0.items() if all(s.facts.get(k) == v for s in states[1:])} if f0 else {}
    out.own = object()
    ex = [e for _, e in alts]
    if all(e is ex[0] for e in ex):
        e = ex[0]
    else:
        e = build([(lits[k], ex[k]) for k in range(len(states))])
    return out, e
