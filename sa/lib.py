"""Shared driver for the property checks."""
import ast
import os
from .interp import Interp, Budget, EXC
from .values import *
from .state import *
from .state import conj
from .m_str import sleaf, ileaf
from . import report as _report
from .report import REPO
from .finite import same_value, differ, feasible
from . import m_coll, m_lib, m_items


class Anchor(Exception):
    """a public name a property talks about is not there"""


class Out:
    __slots__ = ('value', 'st', 'raises', 'events', 'cuts', 'dead')


class Session:
    def __init__(self, rep, root=None, steps=1500000, literals=None):
        self.rep = rep
        self.I = Interp(root or REPO, steps=steps)
        self.I.literals = literals or {}
        self.I.load_all()
        self.I.freeze()
        _report.LOADED.append(True)
        self.base = self.I.st0

    def state(self):
        return self.base.copy()

    def g(self, mod, name):
        if mod not in self.I.modules:
            raise Anchor('module %s' % mod)
        v = self.I.glob(mod, name)
        if v is None:
            raise Anchor('%s.%s' % (mod, name))
        return self.base.simp(v)

    def has(self, mod, name):
        return mod in self.I.modules and self.I.glob(mod, name) is not None

    def run(self, fn, st=None, listen=None, intercepts=None, rec=None, steps=None, flat=False):
        """fn(I, st) evaluated in a fresh context"""
        I = self.I
        st = st if st is not None else self.state()
        o = Out()
        o.events = []
        sink = []
        saved = (I.sinks, I.listeners, I.intercepts, I.rec_limit, I.cuts, I.stack, I.loops)
        I.sinks = (sink,)
        I.listeners = []
        if listen is True:
            I.listeners.append(lambda k, d: o.events.append((k, d)))
        elif callable(listen):
            I.listeners.append(listen)
        elif listen:
            I.listeners.append(lambda k, d: o.events.append((k, d)) if k in listen else None)
        I.intercepts = dict(intercepts or {})
        if rec is not None:
            I.rec_limit = rec
        I.cuts = []
        I.stack = []
        I.nsteps = 0
        old_steps = I.steps
        if steps:
            I.steps = steps
        o.dead = False
        FLAT[0] = flat
        try:
            try:
                o.value = fn(I, st)
                o.value = st.simp(o.value) if isinstance(o.value, V) else o.value
            except PathDead:
                o.dead = True
                o.value = None
            o.cuts = list(I.cuts)
        finally:
            FLAT[0] = False
            I.sinks, I.listeners, I.intercepts, I.rec_limit, I.cuts, I.stack, I.loops = saved
            I.steps = old_steps
            self.rep.functions |= I.evaluated
        o.st = st
        o.raises = sink
        return o

    def call(self, f, args=(), kwargs=None, st=None, **k):
        return self.run(lambda I, s: I.call(s, f, list(args), dict(kwargs or {}), None), st, **k)

    def new(self, st, cref, *args, **kw):
        return self.I.call(st, cref, list(args), kw, None)

    def where_class(self, cref):
        ci = self.base.get(cref.oid).data
        return self.loc(ci.node)

    def loc(self, node):
        if node is None:
            return ''
        m = getattr(node, '_mod', None)
        f = self.I.files.get(m, m)
        return '%s:%s' % (os.path.relpath(f, self.I.root) if f else '?', getattr(node, 'lineno', '?'))

    def loc_of(self, v):
        """location of a function or class value"""
        v = v.f if type(v) is Bound else v
        while type(v) is Ref:
            o = self.base.get(v.oid)
            if o.kind == 'func':
                return self.loc(o.data.node) + ' ' + o.data.qual
            if o.kind == 'class':
                return self.loc(o.data.node) + ' ' + o.data.qual
            if type(o.data) is Ref:
                v = o.data
            elif o.kind == 'prop':
                v = o.data[0]
            else:
                break
        return ''

    def qual(self, mod, name):
        v = self.g(mod, name)
        o = self.base.get(v.oid)
        return o.data.qual

    def method_qual(self, mod, cls, name):
        """qualified name of the function a method of the class is, inherited or not"""
        v = self.I.class_attr(self.base, self.g(mod, cls), name)
        v = v.f if type(v) is Bound else v
        if type(v) is Ref and self.base.get(v.oid).kind == 'func':
            return self.base.get(v.oid).data.qual
        return self.qual(mod, cls) + '.' + name

    def define(self, I, st, text, name='stub'):
        """names a piece of source text defines, evaluated in the state"""
        from .interp import Frame
        tree = ast.parse(text)
        for n in ast.walk(tree):
            n._mod = name
        ref = st.new(Obj('module', None, {'__name__': Const(name)}, name))
        fr = Frame(env=ref.oid, module=ref, modname=name, qual=name + ':<module>', globals_=set(), nonlocals=set())
        outs = I.exec_block(tree.body, st, fr)
        norm = [o for o in outs if o[0] == 'n']
        if norm and norm[0][1] is not st:
            st.become(norm[0][1])
        elif not norm:
            raise PathDead()
        return st.get(ref.oid).attrs

    def exc(self, out):
        """names of the exceptions that may leave, with their conditions"""
        return [(self.I.exc_name(s, e), s) for s, e in out.raises]


def alts(st, v):
    """(condition literals, value) alternatives of a value"""
    v = st.simp(v)
    out = []

    def go(x, g):
        if type(x) is Ite:
            q = st.copy()
            go(x.a, g + ((x.c, True),))
            go(x.b, g + ((x.c, False),))
        else:
            out.append((g, x))
    go(v, ())
    return out


def consts(st, v):
    """all values when every alternative is a constant, else None"""
    r = [x for _, x in alts(st, v)]
    return [x.v for x in r] if all(type(x) is Const for x in r) else None


def seq(S, st, v):
    """elements of a list/tuple when all are certain, else None"""
    v = st.simp(v)
    if type(v) is Tup:
        return list(v.items)
    if type(v) is Ref:
        k = m_coll.kind_of(S.I, st, v)
        o = st.get(v.oid)
        if k in ('list', 'set') or o.kind in ('iter', 'gen', 'lazy', 'range'):
            es = S.I.entries(st, v)
            if es is None or any(e.g or e.many for e in es):
                return None
            return [st.simp(e.v) for e in es]
    return None


def plain(S, st, v, depth=6):
    """Python value of a fully constant abstract value, else None-marker"""
    v = st.simp(v)
    t = type(v)
    if t is Const:
        return v.v
    if t is Tup:
        return tuple(plain(S, st, x, depth - 1) for x in v.items)
    if t is Ref and depth:
        o = st.get(v.oid)
        k = m_coll.kind_of(S.I, st, v)
        if k == 'list':
            r = seq(S, st, v)
            if r is None:
                raise NotPlain(v)
            return [plain(S, st, x, depth - 1) for x in r]
        if k == 'dict':
            out = {}
            for e in o.data.values():
                if e.g:
                    raise NotPlain(v)
                key = plain(S, st, e.k, depth - 1)
                out[tuple(key) if isinstance(key, list) else key] = plain(S, st, e.v, depth - 1)
            return out
        if k == 'set':
            es = S.I.set_elems(st, o)
            if any(e.g or e.many for e in es):
                raise NotPlain(v)
            return {plain(S, st, e.v, depth - 1) for e in es}
        if o.kind == 'range':
            a = [x.v for x in o.data if type(x) is Const]
            if len(a) == 3:
                return range(*a)
    raise NotPlain(v)


class NotPlain(Exception):
    pass


def elements(S, st, v):
    """[(literals, value, many)] of an iterable, gated alternatives split; None when unknown"""
    es = S.I.entries(st, v)
    if es is None:
        return None
    out = []
    for e in es:
        for g, x in alts(st, e.v):
            l = tuple(e.g) + g
            if l and feasible(l) is False:
                continue
            out.append((l, x, e.many))
    return out


def under(st, lits):
    """copy of the state with the literals assumed (None when contradictory)"""
    q = st.copy()
    for c, p in lits:
        if not q.assume(c, p):
            return None
    return q


def subclasses(S, base, concrete=False):
    """(module, name, class) of the analysed classes deriving from base"""
    out = []
    for mod in sorted(S.I.modules):
        ns = S.base.get(S.I.modules[mod].oid).attrs if type(S.I.modules[mod]) is Ref else {}
        for n, v in sorted(ns.items()):
            if type(v) is Ref and S.base.has(v.oid) and S.base.get(v.oid).kind == 'class' and v != base:
                if base in S.I.mro(S.base, v) and not any(v == x for _, _, x in out):
                    out.append((mod, n, v))
    return out
