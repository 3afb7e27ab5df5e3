"""Abstract log records: symbolic XML elements of the log format."""
from .lib import *
from .models import XML


_ranges = {}


def leaf(name, lo, hi):
    if _ranges.setdefault(name, (lo, hi)) != (lo, hi):
        name = '%s[%s..%s]' % (name, lo, hi)        # one unknown, one range
    return Term('leaf', (name,), 'int', (lo, hi))


def text(x):
    """the text of a number as it stands in the record"""
    x = x if isinstance(x, V) else Const(x)
    if type(x) is Const:
        return Const(str(x.v))
    return Term('str', (x,), 'str')


def join(xs):
    """comma separated attribute"""
    parts = []
    for i, x in enumerate(xs):
        if i:
            parts.append(Const(','))
        parts.append(x if isinstance(x, V) and getattr(x, 'ty', None) == 'str' else text(x))
    out = []
    for p in parts:
        if type(p) is Const and out and type(out[-1]) is Const:
            out[-1] = Const(out[-1].v + p.v)
        else:
            out.append(p)
    return out[0] if len(out) == 1 else Term('cat', tuple(out), 'str')


def elem(I, st, tag, **attrs):
    tag = tag if isinstance(tag, V) else Const(tag)
    at = I.new_dict(st, [(Const(k), v if isinstance(v, V) else Const(str(v))) for k, v in attrs.items()])
    return st.new(Obj('inst', Bi(XML), {'tag': tag, 'attrib': at}))


def word(parts):
    """bit field composition: (shift, value) pairs"""
    w = Const(0)
    for sh, x in parts:
        w = n_add(w, n_mul(x if isinstance(x, V) else Const(x), Const(1 << sh)))
    return w


def lin(*terms):
    """sum of (coefficient, value) and constants"""
    w = Const(0)
    for t in terms:
        if isinstance(t, tuple):
            w = n_add(w, n_mul(t[1] if isinstance(t[1], V) else Const(t[1]), Const(t[0])))
        else:
            w = n_add(w, t if isinstance(t, V) else Const(t))
    return w


def set_values(S, st, v):
    """elements of a set whose membership is certain, else None"""
    v = st.simp(v)
    if type(v) is not Ref:
        return None
    k = m_coll.kind_of(S.I, st, v)
    o = st.get(v.oid)
    if k == 'set':
        es = S.I.set_elems(st, o)
    elif k == 'list':
        es = S.I.entries(st, v)
    else:
        return None
    if es is None or any(e.g or e.many for e in es):
        return None
    return [st.simp(e.v) for e in es]


def same_set(st, got, want):
    """True/False/None: the two lists hold the same values"""
    if got is None:
        return None
    if len(got) != len(want):
        return False
    left = list(want)
    unsure = False
    for g in got:
        hit = None
        for w in left:
            r = same_value(g, w)
            if r is True:
                hit = w
                break
            if r is None:
                unsure = True
        if hit is None:
            return None if unsure else False
        left.remove(hit)
    return True
