"""C28: composite index codes use one layout in both directions."""
from ..lib import *

RULE = ('Value numbering of MixedCategory/SubCategory: for every sub-range of several differently shaped composites, the code computed '
        'from symbolic parts must be the affine form offset(k) + code of the parts inside sub-range k, and splitting every representative '
        'index must give the sub-range containing it and the parts of index - offset(k), with the same offsets in both directions.')

CAT = 'mahjong.record.category'
SHAPES = [[(9, 4), (7, 4)], [(9, 4), (9, 4), (9, 4), (7, 4)], [(2, 3), (5,), (3, 2, 2)], [(3, 2, 4), (2, 5, 3, 2)], [(1,), (34, 3)], [(4,), (-1, 3)]]


def size(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def run(rep):
    S = Session(rep)
    Mixed = S.g(CAT, 'MixedCategory')
    Sub = S.g(CAT, 'SubCategory')
    wi = S.loc_of(S.I.class_attr(S.base, Mixed, 'index'))
    wc = S.loc_of(S.I.class_attr(S.base, Mixed, 'category'))
    si = S.loc_of(S.I.class_attr(S.base, Sub, 'index'))
    sc = S.loc_of(S.I.class_attr(S.base, Sub, 'category'))
    for shape in [s for sh in SHAPES for s in sh]:
        name = 'SubCategory%r' % (shape,)
        with rep.group(name):
            check_sub(S, rep, Sub, shape, name, si, sc)
    for shapes in SHAPES:
        name = 'MixedCategory%r' % (shapes,)
        with rep.group(name):
            check_mixed(S, rep, Mixed, Sub, shapes, name, wi, wc)


def code(parts, shape):
    acc = Const(0)
    for p, n in zip(parts, (1,) + tuple(shape[1:])):
        acc = n_add(n_mul(acc, Const(n)), p)
    return acc


def leaves(shape, tag):
    return [Term('leaf', ('part%d_of_%r%s' % (i, tuple(shape), tag),), 'int', (0, (n - 1) if n > 0 else INF)) for i, n in enumerate(shape)]


def verdict(st, v, want):
    return same_value(st.simp(v), want)


def check_sub(S, rep, Sub, shape, name, wi, wc):
    st = S.state()
    ps = leaves(shape, '')
    out = S.run(lambda I, s: I.call_method(s, S.new(s, Sub, *[Const(x) for x in shape]), 'index', [Tup(ps)], {}, None), st)
    if out.dead:
        rep.bad(name + '.index raises for valid parts', wi, str([n for n, _ in S.exc(out)]))
        return
    want = code(ps, shape)
    rep.decide(verdict(out.st, out.value, want), name + '.index code', wi, 'computed %r, layout requires %r' % (out.value, want))
    # splitting the code of symbolic parts gives the parts back
    st = S.state()
    out = S.run(lambda I, s: I.call_method(s, S.new(s, Sub, *[Const(x) for x in shape]), 'category', [want], {}, None), st)
    if out.dead:
        rep.bad(name + '.category raises for a valid index', wc, str([n for n, _ in S.exc(out)]))
        return
    got = seq(S, out.st, out.value)
    if got is None or len(got) != len(ps):
        rep.decide(None if got is None else False, name + '.category parts', wc, repr(out.value))
        return
    for i, (a, b) in enumerate(zip(got, ps)):
        rep.decide(verdict(out.st, a, b), '%s.category part %d' % (name, i), wc, 'computed %r, layout requires %r' % (a, b))


def check_mixed(S, rep, Mixed, Sub, shapes, name, wi, wc):
    def make(I, s):
        subs = [S.new(s, Sub, *[Const(x) for x in sh]) for sh in shapes]
        return S.new(s, Mixed, I.new_list(s, subs))
    off = 0
    for k, sh in enumerate(shapes):
        ps = leaves(sh, '')
        want = n_add(Const(off), code(ps, sh))
        out = S.run(lambda I, s: I.call_method(s, make(I, s), 'index', [Tup([Const(k)] + ps)], {}, None))
        if out.dead:
            rep.bad('%s.index raises for sub-range %d' % (name, k), wi, str([n for n, _ in S.exc(out)]))
        else:
            rep.decide(verdict(out.st, out.value, want), '%s.index of sub-range %d' % (name, k), wi,
                       'computed %r, layout requires %r' % (out.value, want))
        # every boundary index of the sub-range, and the symbolic one
        n = size(sh) if sh[0] != -1 else 5 * size(sh[1:])
        probes = [(Const(off), 'first'), (Const(off + n - 1), 'last')]
        sym = Term('leaf', ('index_from_%d_to_%s' % (off, off + n - 1 if sh[0] != -1 else 'inf'),), 'int', (off, off + n - 1 if sh[0] != -1 else INF))
        probes.append((sym, 'any'))
        for x, what in probes:
            out = S.run(lambda I, s: I.call_method(s, make(I, s), 'category', [x], {}, None))
            if out.dead:
                rep.bad('%s.category raises for the %s index of sub-range %d' % (name, what, k), wc, str([m for m, _ in S.exc(out)]))
                continue
            y = n_sub(x, Const(off))
            exp = []
            for m in reversed(sh[1:]):
                y, r = n_qr(y, m)
                exp.append(r)
            exp.append(y)
            want = Tup([Const(k)] + exp[::-1])
            rep.decide(verdict(out.st, out.value, want), '%s.category for the %s index of sub-range %d' % (name, what, k), wc,
                       'computed %r, layout requires %r' % (out.value, want))
        off += n
