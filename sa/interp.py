"""Abstract interpreter for the Python subset used by the analysed package.

It walks the syntax trees of the package; the package is never imported or
executed.  Undecided conditions fork the state; the arms are merged again into
gated values (see values.Ite), so every path is represented.
"""
import ast
import os
import time
from . import report as _report
from .values import *
from .state import *
from .state import conj, OLD


class Budget(Exception):
    """the analysis gave up (step limit)"""


class FD:
    """function data"""
    __slots__ = ('node', 'module', 'env', 'defaults', 'kwdefaults', 'qual', 'cls', 'is_gen', 'modname', 'locals_', 'globals_', 'nonlocals')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class CI:
    """class info"""
    __slots__ = ('name', 'qual', 'mro', 'bases', 'enum', 'flag', 'members', 'by_value', 'nt', 'nt_defaults', 'total', 'modname', 'node', 'meta', 'dataclass')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Frame:
    __slots__ = ('fd', 'env', 'module', 'consumer', 'cls', 'first', 'globals_', 'nonlocals', 'qual', 'call_node', 'classenv', 'modname', 'parent', 'excs')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))
        if self.excs is None:
            self.excs = []


_gen_cache = {}


def own_nodes(fn):
    """nodes of a function body without nested functions / classes"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    st = list(reversed(body))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(reversed(list(ast.iter_child_nodes(n))))


def scope_info(fn):
    r = _gen_cache.get(fn)
    if r is None:
        gen = False
        loc, glo, nonl = set(), set(), set()

        def target(t):
            if isinstance(t, ast.Name):
                loc.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    target(e)
            elif isinstance(t, ast.Starred):
                target(t.value)
        comp_scopes = set()
        for n in own_nodes(fn):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    for m in ast.walk(g.target):
                        comp_scopes.add(m)
        for n in own_nodes(fn):
            if n in comp_scopes:
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen = True
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.AugAssign, ast.For)):
                target(n.target)
            elif isinstance(n, ast.AnnAssign):
                if n.value is not None or isinstance(n.target, ast.Name):
                    target(n.target)
            elif isinstance(n, ast.NamedExpr):
                target(n.target)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        target(i.optional_vars)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    loc.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t)
            elif isinstance(n, ast.Global):
                glo.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
        r = (gen, loc - glo - nonl, glo, nonl)
        _gen_cache[fn] = r
    return r


class Interp:
    def __init__(self, root, package='mahjong', steps=3000000):
        self.root = root
        self.package = package
        self.sinks = ([],)
        self.stack = []
        self.literals = {}
        self.intercepts = {}
        self.listeners = []
        self.rec_limit = 3
        self.const_depth = 60
        self.steps = steps
        self.nsteps = 0
        self.modules = {}
        self.trees = {}
        self.files = {}
        self.enum_pool = {}
        self.loading = []
        self.cuts = []
        self.evaluated = set()     # function quals analysed
        self.st0 = State()
        self.init_mode = False
        self.keycache = {}
        self.loops = ()
        from . import models
        self.models = models
        models.install(self)

    # ------------------------------------------------------------ loading
    def module_path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        if os.path.isdir(p):
            return ''
        return None

    def is_internal(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def load(self, name, st=None):
        """module Ref (analysing the module body on first use)"""
        if name in self.modules:
            return self.modules[name]
        st = st if st is not None else self.st0
        path = self.module_path(name)
        if path is None:
            return None
        if '.' in name:
            self.load(name.rsplit('.', 1)[0], st)
        if name in self.modules:
            return self.modules[name]
        ref = st.new(Obj('module', None, {'__name__': Const(name)}, name))
        self.modules[name] = ref
        self.files[name] = path
        if path:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            tree = ast.parse(src, path)
            self.trees[name] = tree
            for n in ast.walk(tree):
                n._mod = name
            fr = Frame(env=ref.oid, module=ref, modname=name, qual=name + ':<module>', globals_=set(), nonlocals=set())
            saved = self.sinks
            sink = []
            self.sinks = (sink,)
            old_mode, self.init_mode = self.init_mode, True
            old_stack, self.stack = self.stack, []
            try:
                outs = self.exec_block(tree.body, st, fr)
                norm = [o for o in outs if o[0] == 'n']
                if norm:
                    if norm[0][1] is not st:
                        st.become(norm[0][1])
                elif sink:
                    raise ImportError('module %s: body always raises %r' % (name, [self.exc_name(s, e) for s, e in sink]))
            finally:
                self.sinks = saved
                self.init_mode = old_mode
                self.stack = old_stack
        if '.' in name:
            par, last = name.rsplit('.', 1)
            st.w(self.modules[par].oid).attrs[last] = ref
        return ref

    def load_all(self):
        names = []
        base = os.path.join(self.root, self.package)
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    names.append(rel)
        for n in sorted(names):
            self.load(n)
        return names

    def freeze(self):
        """make everything allocated so far the shared base heap"""
        s = self.st0
        s._freeze()
        for l in s.layers:
            s.base.update(l)
        s.layers = ()
        self.st0 = State(s.base)

    def glob(self, mod, name, st=None):
        st = st or self.st0
        m = self.modules.get(mod)
        if m is None:
            return None
        v = st.get(m.oid).attrs.get(name)
        return None if v is UNDEF else v

    # ------------------------------------------------------------- events
    def emit(self, kind, **k):
        for l in self.listeners:
            l(kind, k)

    def where(self, node):
        m = getattr(node, '_mod', None) or '?'
        return '%s:%s' % (self.files.get(m, m), getattr(node, 'lineno', '?'))

    def tick(self):
        self.nsteps += 1
        if not self.nsteps & 4095 and time.time() > _report.DEADLINE:
            raise TimeoutError('analysis time limit')
        if self.nsteps > self.steps:
            raise Budget('step limit')

    # --------------------------------------------------------- exceptions
    def raise_(self, st, exc, node=None):
        self.sinks[-1].append((st.copy(), exc))
        self.emit('raise', st=st, exc=exc, node=node)
        raise PathDead()

    def raise_bi(self, st, name, node=None, *args):
        r = st.new(Obj('inst', Bi(name), {'args': Tup([a if isinstance(a, V) else Const(a) for a in args])}))
        self.emit('error', st=st, name=name, node=node, args=args, stack=list(self.stack))
        self.raise_(st, r, node)

    def exc_name(self, st, e):
        if type(e) is Ref:
            o = st.get(e.oid)
            if type(o.cls) is Bi:
                return o.cls.name + (str(o.attrs.get('args')) if o.attrs.get('args') else '')
            if type(o.cls) is Ref:
                return st.get(o.cls.oid).data.name
        return repr(e)

    # --------------------------------------------------------- env access
    def lookup(self, name, st, fr, node):
        if fr.classenv is not None and name not in fr.globals_:
            a = st.get(fr.classenv).attrs
            if name in a:
                v = st.simp(a[name])
                if v is not UNDEF:
                    return v
        if name not in fr.globals_:
            e = fr.env
            while e is not None:
                o = st.get(e)
                if o.kind == 'module':
                    break
                v = o.attrs.get(name)
                if v is not None:
                    if type(v) is Ite:
                        v = st.simp(v)
                        v = self.drop_undef(st, v)
                    if v is not UNDEF:
                        return v
                    if v is UNDEF:
                        self.raise_bi(st, 'UnboundLocalError', node, name)
                e = o.data
        v = st.get(fr.module.oid).attrs.get(name)
        if v is not None and v is not UNDEF:
            v = st.simp(v)
            self.emit('gread', st=st, module=fr.modname, name=name, value=v, node=node)
            return v
        v = self.builtins.get(name)
        if v is not None:
            return v
        self.raise_bi(st, 'NameError', node, name)

    def drop_undef(self, st, v):
        if type(v) is not Ite:
            return v
        a, b = self.drop_undef(st, v.a), self.drop_undef(st, v.b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(v.c, a, b)

    def store(self, name, v, st, fr, node):
        if name in fr.globals_:
            self.emit('gwrite', st=st, module=fr.modname, name=name, value=v, node=node, stack=list(self.stack))
            st.w(fr.module.oid).attrs[name] = v
            return
        if fr.classenv is not None:
            st.w(fr.classenv).attrs[name] = v
            return
        if name in fr.nonlocals:
            e = st.get(fr.env).data
            while e is not None:
                o = st.get(e)
                if o.kind == 'module':
                    break
                if name in o.attrs:
                    self.emit('mutate', st=st, oid=e, what='nonlocal ' + name, node=node, stack=list(self.stack))
                    st.w(e).attrs[name] = v
                    return
                e = o.data
        o = st.get(fr.env)
        if o.kind == 'module' and self.stack:
            pass
        st.w(fr.env).attrs[name] = v

    # ---------------------------------------------------------- functions
    def make_func(self, node, st, fr, defaults, kwdefaults):
        gen, loc, glo, nonl = scope_info(node)
        name = getattr(node, 'name', '<lambda>')
        qual = fr.qual
        if qual.endswith('<module>'):
            q = qual[:-len('<module>')] + name
        else:
            q = qual + '.' + name
        env = fr.env
        if st.get(env).kind == 'module':
            env = None
        fd = FD(node=node, module=fr.module, env=env, defaults=defaults, kwdefaults=kwdefaults,
                qual=q, cls=None, is_gen=gen, modname=fr.modname, locals_=loc, globals_=glo, nonlocals=nonl)
        return st.new(Obj('func', Bi('function'), {}, fd, node))

    def bind(self, st, fd, args, kwargs, node):
        a = fd.node.args
        out = {}
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        kwargs = dict(kwargs)
        starkw = kwargs.pop('**', None)
        args = list(args)
        extra_unknown = None
        if args and isinstance(args[-1], tuple):
            extra_unknown = args.pop()
        n = len(pos)
        if len(args) > n and a.vararg is None:
            self.raise_bi(st, 'TypeError', node, '%s() takes %d positional arguments but %d were given' % (fd.qual, n, len(args)))
        for name, v in zip(pos, args):
            out[name] = v
        if extra_unknown is not None:
            for i, name in enumerate(pos[len(args):]):
                if name not in kwargs:
                    out[name] = Term('item', (extra_unknown[1], Const(i)))
        if a.vararg is not None:
            rest = args[n:]
            if extra_unknown is not None:
                out[a.vararg.arg] = Term('stararg', (extra_unknown[1],))
            else:
                out[a.vararg.arg] = Tup(rest)
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if k in out and (k in pos or k in kwonly):
                self.raise_bi(st, 'TypeError', node, '%s() got multiple values for argument %r' % (fd.qual, k))
            if (k in pos and k not in posonly) or k in kwonly:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_bi(st, 'TypeError', node, '%s() got an unexpected keyword argument %r' % (fd.qual, k))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(st, [(Const(k), v) for k, v in extra.items()])
        nd = len(fd.defaults)
        for i, name in enumerate(pos):
            if name not in out:
                j = i - (n - nd)
                if j >= 0:
                    out[name] = fd.defaults[j]
                elif starkw is not None:
                    out[name] = Term('kwitem', (starkw, Const(name)))
                else:
                    self.raise_bi(st, 'TypeError', node, '%s() missing required argument %r' % (fd.qual, name))
        for name in kwonly:
            if name not in out:
                if fd.kwdefaults.get(name) is not None:
                    out[name] = fd.kwdefaults[name]
                elif starkw is not None:
                    out[name] = Term('kwitem', (starkw, Const(name)))
                else:
                    self.raise_bi(st, 'TypeError', node, '%s() missing required keyword argument %r' % (fd.qual, name))
        return out

    def call_func(self, st, fref, args, kwargs, node):
        fo = st.get(fref.oid)
        fd = fo.data
        h = self.intercepts.get(fd.qual)
        if h is not None:
            r = h(self, st, fref, args, kwargs, node)
            if r is not NotImplemented:
                return r
        bound = self.bind(st, fd, args, kwargs, node)
        self.emit('call', st=st, qual=fd.qual, fd=fd, bound=bound, node=node, stack=list(self.stack))
        depth = 0
        for f in self.stack:
            if f.fd is not None and f.fd.node is fd.node:
                depth += 1
        if depth:
            consts = all(type(v) in (Const, Bi) or (type(v) is Tup and all(type(x) is Const for x in v.items)) or
                         (type(v) is Ref and st.get(v.oid).kind in ('class', 'func', 'module')) for v in bound.values())
            lim = self.const_depth if (consts or self.init_mode) else self.rec_limit
            if depth >= lim:
                self.cuts.append((fd.qual, node))
                self.emit('cut', qual=fd.qual, node=node)
                if fd.is_gen:
                    return st.new(Obj('gen', Bi('generator'), {}, {'state': 'cut', 'fd': fd, 'env': None}, node))
                return Term('rec', (fd.qual,) + tuple(bound.get(k, NONE) for k in sorted(bound)))
        if len(self.stack) > 120:
            raise Budget('depth')
        env = st.new(Obj('env', None, bound, fd.env, fd.node)).oid
        if fd.is_gen:
            return st.new(Obj('gen', Bi('generator'), {}, {'state': 'new', 'fd': fd, 'env': env, 'first': self._first(fd, bound)}, node))
        self.evaluated.add(fd.qual)
        fr = Frame(fd=fd, env=env, module=fd.module, modname=fd.modname, cls=fd.cls, first=self._first(fd, bound),
                   globals_=fd.globals_, nonlocals=fd.nonlocals, qual=fd.qual + '.<locals>', call_node=node,
                   parent=self.stack[-1] if self.stack else None)
        self.stack.append(fr)
        try:
            if isinstance(fd.node, ast.Lambda):
                r = self.eval(fd.node.body, st, fr)
                return r
            outs = self.exec_block(fd.node.body, st, fr)
        finally:
            self.stack.pop()
        alts = []
        for k, s, v in outs:
            if k == 'n':
                alts.append((s, NONE))
            elif k == 'ret':
                alts.append((s, v))
            elif k == 'gx':
                raise AssertionError('gx outside generator')
        if not alts:
            raise PathDead()
        m, v = merge_states(alts)
        if m is not st:
            st.become(m)
        v = st.simp(v)
        self.emit('return', st=st, qual=fd.qual, value=v, node=node)
        return v

    def _first(self, fd, bound):
        a = fd.node.args
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        return bound.get(names[0]) if names else None

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        outs = []
        for s in stmts:
            self.tick()
            try:
                r = getattr(self, 'x_' + type(s).__name__)(s, st, fr)
            except PathDead:
                return outs
            if r is None:
                continue
            normals = []
            for o in r:
                if o[0] == 'n':
                    normals.append((o[1], None))
                else:
                    outs.append(o)
            if not normals:
                return outs
            if len(normals) == 1:
                st = normals[0][0]
            else:
                st, _ = merge_states(normals)
        outs.append(('n', st, None))
        return outs

    def x_Expr(self, n, st, fr):
        v = n.value
        if isinstance(v, ast.Yield):
            val = self.eval(v.value, st, fr) if v.value is not None else NONE
            return self.do_yield(st, val, fr, n)
        if isinstance(v, ast.YieldFrom):
            it = self.eval(v.value, st, fr)
            return self.do_yield_from(st, it, fr, n)
        self.eval(v, st, fr)

    def do_yield(self, st, val, fr, n):
        self.emit('yield', st=st, value=val, node=n, fr=fr)
        r = fr.consumer(st, val)
        if r is None:
            return None
        return [o if o[0] == 'n' else (('n', o[1], None) if o[0] == 'cont' else ('gx', o[1], (fr, o))) for o in r]

    def do_yield_from(self, st, it, fr, n):
        r = self.iterate(st, it, fr.consumer, n)
        return [o if o[0] == 'n' else ('gx', o[1], (fr, o)) for o in r]

    def x_Assign(self, n, st, fr):
        if isinstance(n.value, ast.Yield):
            r = self.x_Expr(ast.copy_location(ast.Expr(n.value), n), st, fr)
            outs = []
            for o in (r if r is not None else [('n', st, None)]):
                if o[0] == 'n':
                    for t in n.targets:
                        self.assign(t, NONE, o[1], fr)
                outs.append(o)
            return outs
        v = self.eval(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr)

    def x_AnnAssign(self, n, st, fr):
        if n.value is not None:
            v = self.eval(n.value, st, fr)
            self.assign(n.target, v, st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, st, fr, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.lift(st, o, lambda s, x: self.set_attr(s, x, t.attr, v, t))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval_index(t.slice, st, fr)
            self.lift(st, o, lambda s, x: self.set_item(s, x, k, v, t))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Budget('assign target %s' % type(t).__name__)

    def unpack(self, elts, v, st, fr, node):
        star = None
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                star = i

        def go(s, x):
            n = len(elts)
            if type(x) in (Term,) or self.is_opaque(s, x):
                for i, e in enumerate(elts):
                    if star is not None and i == star:
                        self.assign(e.value, Term('rest', (x, i, n)), s, fr)
                    elif star is not None and i > star:
                        self.assign(e, Term('item', (x, Const(i - n))), s, fr)
                    else:
                        self.assign(e, self.get_item(s, x, Const(i), node), s, fr)
                return NONE
            es = self.entries(s, x, node)
            if es is None or any(e.g or e.many for e in es):
                vals = None
                if es is not None:
                    # entries before the first uncertain one are positional
                    pass
                for i, e in enumerate(elts):
                    if es is not None and i < len(es) and not any(q.g or q.many for q in es[:i + 1]) and (star is None or i < star):
                        self.assign(e, es[i].v, s, fr)
                    elif star is not None and i == star:
                        if es is not None:
                            self.assign(e.value, self.new_list_entries(s, es[i:]), s, fr)
                        else:
                            self.assign(e.value, Term('rest', (self.freeze_val(s, x), i, n)), s, fr)
                    else:
                        self.assign(e, Term('item', (self.freeze_val(s, x), Const(i))), s, fr)
                return NONE
            vals = [e.v for e in es]
            if star is None:
                if len(vals) != n:
                    self.raise_bi(s, 'ValueError', node, 'unpack %d values into %d' % (len(vals), n))
                for e, y in zip(elts, vals):
                    self.assign(e, y, s, fr)
            else:
                if len(vals) < n - 1:
                    self.raise_bi(s, 'ValueError', node, 'unpack %d values into %d' % (len(vals), n))
                tail = n - 1 - star
                for e, y in zip(elts[:star], vals[:star]):
                    self.assign(e, y, s, fr)
                mid = vals[star:len(vals) - tail]
                self.assign(elts[star].value, self.new_list(s, mid), s, fr)
                for e, y in zip(elts[star + 1:], vals[len(vals) - tail:]):
                    self.assign(e, y, s, fr)
            return NONE
        self.lift(st, v, go)

    def is_opaque(self, st, x):
        return type(x) is Ref and st.get(x.oid).kind in ('ext',)

    def freeze_val(self, st, x):
        return x

    def x_AugAssign(self, n, st, fr):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fr, t)
            v = self.eval(n.value, st, fr)
            r = self.inplace(st, op, cur, v, n)
            self.store(t.id, r, st, fr, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)

            def go(s, x):
                cur = self.get_attr(s, x, t.attr, t)
                v = self.eval(n.value, s, fr)
                r = self.inplace(s, op, cur, v, n)
                self.set_attr(s, x, t.attr, r, t)
                return NONE
            self.lift(st, o, go)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval_index(t.slice, st, fr)

            def go2(s, x):
                cur = self.get_item(s, x, k, t)
                v = self.eval(n.value, s, fr)
                r = self.inplace(s, op, cur, v, n)
                self.set_item(s, x, k, r, t)
                return NONE
            self.lift(st, o, go2)

    def x_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, UNDEF, st, fr, t)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                k = self.eval_index(t.slice, st, fr)
                self.lift(st, o, lambda s, x: self.del_item(s, x, k, t))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                self.lift(st, o, lambda s, x: self.del_attr(s, x, t.attr, t))

    def x_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        if self.listeners:
            self.emit('returning', st=st, value=v, node=n, fr=fr)
        return [('ret', st, v)]

    def x_Pass(self, n, st, fr):
        return None

    def x_Break(self, n, st, fr):
        return [('brk', st, None)]

    def x_Continue(self, n, st, fr):
        return [('cont', st, None)]

    def x_Global(self, n, st, fr):
        return None

    x_Nonlocal = x_Global

    def x_If(self, n, st, fr):
        v = self.eval_test(n.test, st, fr)
        ts, fs = self.branch(st, v, n.test)
        outs = []
        if ts is not None:
            outs.extend(self.exec_block(n.body, ts, fr))
        if fs is not None:
            if n.orelse:
                outs.extend(self.exec_block(n.orelse, fs, fr))
            else:
                outs.append(('n', fs, None))
        return outs

    def x_Assert(self, n, st, fr):
        v = self.eval_test(n.test, st, fr)
        ts, fs = self.branch(st, v, n.test)
        if fs is not None:
            saved = self.sinks
            try:
                msg = self.eval(n.msg, fs, fr) if n.msg is not None else NONE
                self.emit('assert', st=fs, node=n)
                r = fs.new(Obj('inst', Bi('AssertionError'), {'args': Tup([msg])}))
                self.sinks[-1].append((fs, r))
            except PathDead:
                pass
            finally:
                self.sinks = saved
        if ts is None:
            raise PathDead()
        return [('n', ts, None)]

    def x_Raise(self, n, st, fr):
        if n.exc is None:
            e = fr.excs[-1] if fr.excs else st.new(Obj('inst', Bi('RuntimeError'), {}))
        else:
            e = self.eval(n.exc, st, fr)
            e = self.lift(st, e, lambda s, x: self.as_exc(s, x, n))
            if n.cause is not None:
                self.eval(n.cause, st, fr)
        self.emit('raise_stmt', st=st, exc=e, node=n, stack=list(self.stack))
        self.raise_(st, e, n)

    def as_exc(self, st, x, node):
        if type(x) is Bi:
            if x.name in EXC:
                return st.new(Obj('inst', x, {'args': Tup([])}))
            if x.name == 'NotImplemented':
                return self.raise_bi(st, 'TypeError', node, 'exceptions must derive from BaseException')
        if type(x) is Ref and st.get(x.oid).kind == 'class':
            return self.call(st, x, [], {}, node)
        return x

    def exc_class(self, st, e):
        if type(e) is Ref:
            return st.get(e.oid).cls
        return None

    def exc_matches(self, st, e, h):
        """True/False/None"""
        if type(h) is Tup:
            rs = [self.exc_matches(st, e, x) for x in h.items]
            if True in rs:
                return True
            return None if None in rs else False
        c = self.exc_class(st, e)
        if c is None:
            return None
        return self.is_subclass(st, c, h)

    def x_Try(self, n, st, fr):
        outer = self.sinks
        sink = []
        self.sinks = outer + (sink,)
        try:
            outs = self.exec_block(n.body, st, fr)
        finally:
            self.sinks = outer
        res = []
        final_sink = []
        if n.finalbody:
            self.sinks = outer + (final_sink,)
        try:
            for o in outs:
                if o[0] == 'n' and n.orelse:
                    res.extend(self.exec_block(n.orelse, o[1], fr))
                else:
                    res.append(o)
            for s, e in sink:
                handled = False
                for h in n.handlers:
                    try:
                        t = self.eval(h.type, s, fr) if h.type is not None else None
                    except PathDead:
                        handled = True
                        break
                    m = True if t is None else self.exc_matches(s, e, t)
                    if m is False:
                        continue
                    s2 = s
                    if m is None:
                        s2 = s.copy()
                        c = Term('exc_is', (e, t), 'bool')
                        s2.assume(c, True)
                        s.assume(c, False)
                    if h.name:
                        self.store(h.name, e, s2, fr, h)
                    fr.excs.append(e)
                    self.emit('except', st=s2, exc=e, node=h)
                    res.extend(self.exec_block(h.body, s2, fr))
                    fr.excs.pop()
                    if m is True:
                        handled = True
                        break
                if not handled:
                    self.sinks[-1].append((s, e))
        finally:
            self.sinks = outer
        if n.finalbody:
            out2 = []
            for o in res:
                fo = self.exec_block(n.finalbody, o[1], fr)
                for q in fo:
                    if q[0] == 'n':
                        out2.append((o[0], q[1], o[2]))
                    else:
                        out2.append(q)
            for s, e in final_sink:
                fo = self.exec_block(n.finalbody, s, fr)
                for q in fo:
                    if q[0] == 'n':
                        self.sinks[-1].append((q[1], e))
                    else:
                        out2.append(q)
            return out2
        return res

    def x_With(self, n, st, fr):
        return self.with_items(n, n.items, st, fr)

    def with_items(self, n, items, st, fr):
        if not items:
            return self.exec_block(n.body, st, fr)
        it, rest = items[0], items[1:]
        ctx = st.simp(self.eval(it.context_expr, st, fr))
        if type(ctx) is Ref and st.get(ctx.oid).kind == 'ctxgen':
            g = st.get(ctx.oid).data

            def body(s, v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, s, fr)
                return self.with_items(n, rest, s, fr)
            return self.iterate(st, g, body, n, through=True)
        if type(ctx) is not Ref or st.get(ctx.oid).kind != 'inst' or self.find_method(st, ctx, '__enter__') is None:
            self.emit('with_ext', st=st, value=ctx, node=n)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ctx if type(ctx) is not Ref else ctx, st, fr)
            return self.with_items(n, rest, st, fr)
        ent = self.call_method(st, ctx, '__enter__', [], {}, n)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent, st, fr)
        outer = self.sinks
        sink = []
        self.sinks = outer + (sink,)
        try:
            outs = self.with_items(n, rest, st, fr)
        finally:
            self.sinks = outer
        res = []
        for o in outs:
            try:
                self.call_method(o[1], ctx, '__exit__', [NONE, NONE, NONE], {}, n)
            except PathDead:
                continue
            res.append(o)
        for s, e in sink:
            try:
                r = self.call_method(s, ctx, '__exit__', [Term('type', (e,)), e, Term('tb', (e,))], {}, n)
            except PathDead:
                continue
            ts, fs = self.branch(s, r, n)
            if ts is not None:
                res.append(('n', ts, None))
            if fs is not None:
                self.sinks[-1].append((fs, e))
        return res

    def x_For(self, n, st, fr):
        it = self.eval(n.iter, st, fr)

        def body(s, v):
            self.assign(n.target, v, s, fr)
            return self.exec_block(n.body, s, fr)
        outs = self.iterate(st, it, body, n)
        return self.loop_exit(n, outs, fr)

    def loop_exit(self, n, outs, fr):
        res = []
        for o in outs:
            if o[0] == 'brk':
                res.append(('n', o[1], None))
            elif o[0] == 'n':
                if n.orelse:
                    res.extend(self.exec_block(n.orelse, o[1], fr))
                else:
                    res.append(o)
            else:
                res.append(o)
        return res

    def x_While(self, n, st, fr):
        outs = []
        k = left = 0
        while True:
            self.tick()
            try:
                v = self.eval_test(n.test, st, fr)
                ts, fs = self.branch(st, v, n.test)
            except PathDead:
                return self.loop_exit(n, outs, fr)
            undecided = ts is not None and fs is not None
            if fs is not None:
                outs.append(('n', fs, None))
            if ts is None:
                break
            if undecided:
                k += 1
                if k > 3:
                    # widening: one more abstract round on the remaining states
                    self.emit('cut', qual=fr.qual, node=n)
                    self.cuts.append(('loop', n))
                    break
            elif k == 0 and self.nsteps > self.steps:
                raise Budget('while')
            r = self.exec_block(n.body, ts, fr)
            normals = []
            for o in r:
                if o[0] in ('n', 'cont'):
                    normals.append((o[1], None))
                else:
                    outs.append(o)
            if not normals:
                break
            st = merge_states(normals)[0] if len(normals) > 1 else normals[0][0]
            if len(r) > len(normals):
                left += 1
                if FLAT[0] and left > 2:
                    self.emit('cut', qual=fr.qual, node=n)
                    self.cuts.append(('loop', n))
                    break
        return self.loop_exit(n, self._merge_normals(outs), fr)

    def _merge_normals(self, outs):
        ns = [(o[1], None) for o in outs if o[0] == 'n']
        if len(ns) <= 1:
            return outs
        m, _ = merge_states(ns)
        return [('n', m, None)] + [o for o in outs if o[0] != 'n']

    def x_FunctionDef(self, n, st, fr):
        a = n.args
        defaults = tuple(self.eval(d, st, fr) for d in a.defaults)
        kwd = {x.arg: (self.eval(d, st, fr) if d is not None else None) for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        f = self.make_func(n, st, fr, defaults, kwd)
        v = f
        for d in reversed(n.decorator_list):
            dv = self.eval(d, st, fr)
            v = self.call(st, dv, [v], {}, d)
        self.store(n.name, v, st, fr, n)

    def x_ClassDef(self, n, st, fr):
        bases = [self.eval(b, st, fr) for b in n.bases]
        kw = {k.arg: self.eval(k.value, st, fr) for k in n.keywords if k.arg}
        q = fr.qual[:-len('<module>')] + n.name if fr.qual.endswith('<module>') else fr.qual + '.' + n.name
        env = st.new(Obj('env', None, {}, None, n)).oid
        cfr = Frame(env=fr.env, module=fr.module, modname=fr.modname, qual=q, globals_=set(), nonlocals=set(), classenv=env, parent=fr)
        is_enum = False
        for b in bases:
            if type(b) is Bi and b.name in ENUMS:
                is_enum = b.name
            elif type(b) is Ref and st.get(b.oid).kind == 'class' and st.get(b.oid).data.enum:
                is_enum = st.get(b.oid).data.enum
        if is_enum:
            self.exec_enum_body(n, st, cfr, env, is_enum)
        else:
            outs = self.exec_block(n.body, st, cfr)
            norm = [o for o in outs if o[0] == 'n']
            if not norm:
                raise PathDead()
            if norm[0][1] is not st:
                st.become(norm[0][1])
        cls = self.make_class(st, n.name, q, bases, dict(st.get(env).attrs), fr.modname, n, is_enum)
        cls_v = cls
        for d in reversed(n.decorator_list):
            dv = self.eval(d, st, fr)
            cls_v = self.call(st, dv, [cls_v], {}, d)
        self.store(n.name, cls_v, st, fr, n)

    def make_class(self, st, name, q, bases, ns, modname, node, is_enum=False):
        bases = list(bases) or [Bi('object')]
        ref = st.new(Obj('class', Bi('type'), {}, None, node))
        ci = CI(name=name, qual=q, bases=bases, modname=modname, node=node, enum=is_enum or None)
        ci.mro = self.c3(st, ref, bases)
        for b in ci.mro[1:]:
            if type(b) is Ref:
                bi = st.get(b.oid).data
                if bi.nt and not ci.nt:
                    ci.nt = bi.nt
                    ci.nt_defaults = bi.nt_defaults
                if bi.total:
                    ci.total = True
                if bi.dataclass:
                    ci.dataclass = bi.dataclass
        o = st.w(ref.oid)
        o.attrs = ns
        o.data = ci
        for k, v in ns.items():
            self._own(st, v, ref)
        if any(type(b) is Bi and b.name == 'typing.NamedTuple' for b in bases) and node is not None:
            self.models.typed_nt(self, st, ref)
        if is_enum:
            self.finish_enum(st, ref, ci, ns, is_enum)
        hook = None
        for b in ci.mro[1:]:
            if type(b) is Ref and '__init_subclass__' in st.get(b.oid).attrs:
                hook = st.get(b.oid).attrs['__init_subclass__']
                break
        if hook is not None:
            self.call(st, hook if st.get(hook.oid).kind == 'func' else st.get(hook.oid).data, [ref], {}, node)
        return ref

    def _own(self, st, v, ref):
        """record the defining class of methods (for super())"""
        if type(v) is Ref:
            o = st.get(v.oid)
            if o.kind == 'func' and o.data.cls is None:
                o.data.cls = ref
            elif o.kind in ('prop',):
                for x in o.data:
                    if x is not None:
                        self._own(st, x, ref)
            elif o.kind in ('static', 'classm', 'cached'):
                self._own(st, o.data, ref)

    def c3(self, st, ref, bases):
        seqs = []
        for b in bases:
            if type(b) is Ref and st.get(b.oid).kind == 'class':
                seqs.append(list(st.get(b.oid).data.mro))
            elif type(b) is Bi:
                seqs.append([Bi(x) for x in BI_MRO.get(b.name, (b.name, 'object'))])
            else:
                seqs.append([b])
        seqs.append(list(bases))
        out = [ref]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] == c:
                    del s[0]
        if Bi('object') not in out:
            out.append(Bi('object'))
        return out

    # -- enums
    def exec_enum_body(self, n, st, fr, env, kind):
        last = [None, 0]
        for s in n.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = self.eval(s.value, st, fr)
                v = self._auto(v, kind, last)
                self.store(s.targets[0].id, v, st, fr, s)
                if type(v) is Const and isinstance(v.v, int):
                    last[1] = max(last[1], v.v) if 'Flag' in kind else v.v
            else:
                outs = self.exec_block([s], st, fr)
                nn = [o for o in outs if o[0] == 'n']
                if not nn:
                    raise PathDead()
                if nn[0][1] is not st:
                    st.become(nn[0][1])

    def _auto(self, v, kind, last):
        if type(v) is Term and v.op == 'auto':
            if 'Flag' in kind:
                k = 1
                while k <= last[1]:
                    k *= 2
                return Const(k)
            return Const(last[1] + 1)
        return v

    def finish_enum(self, st, ref, ci, ns, kind):
        ci.members = {}
        ci.by_value = {}
        attrs = st.w(ref.oid).attrs
        for k, v in list(ns.items()):
            if k.startswith('__') and k.endswith('__'):
                continue
            if type(v) is Ref and st.get(v.oid).kind in ('func', 'prop', 'static', 'classm', 'class', 'cached'):
                continue
            key = v
            if key in ci.by_value:
                m = ci.by_value[key]
            else:
                m = st.new(Obj('inst', ref, {'_name_': Const(k), '_value_': v}, None, ci.node))
                ci.by_value[key] = m
            ci.members[k] = m
            attrs[k] = m

    def enum_member(self, st, cls, value, node=None):
        ci = st.get(cls.oid).data
        value = st.resolve(value)
        if type(value) is not Const:
            if type(value) is Ref and st.get(value.oid).cls == cls:
                return value
            return Term('enum', (cls, value))
        if value in ci.by_value:
            return ci.by_value[value]
        for k, m in ci.by_value.items():
            if type(k) is Const and k.v == value.v and type(k.v) in (int, bool):
                return m
        if 'Flag' in ci.enum and isinstance(value.v, int):
            key = (cls.oid, value.v)
            if key not in self.enum_pool:
                oid = new_oid()
                o = Obj('inst', cls, {'_name_': NONE, '_value_': value})
                st.base[oid] = o
                self.st0.base[oid] = o
                self.enum_pool[key] = Ref(oid)
            r = self.enum_pool[key]
            if not st.has(r.oid):
                st.base[r.oid] = self.st0.base[r.oid]
            return r
        self.raise_bi(st, 'ValueError', node, '%r is not a valid %s' % (value, ci.name))

    # -- imports
    def x_Import(self, n, st, fr):
        for a in n.names:
            v = self.import_module(a.name, st)
            if a.asname:
                self.store(a.asname, v, st, fr, n)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top, st), st, fr, n)

    def import_module(self, name, st):
        if self.is_internal(name):
            r = self.load(name, st)
            if r is None:
                self.raise_bi(st, 'ImportError', None, name)
            return r
        return Bi(name)

    def x_ImportFrom(self, n, st, fr):
        mod = n.module or ''
        if n.level:
            pkg = fr.modname
            path = self.files.get(pkg, '')
            parts = pkg.split('.')
            if not path.endswith('__init__.py'):
                parts = parts[:-1]
            if n.level > 1:
                parts = parts[:-(n.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        if mod == '__future__':
            return
        if self.is_internal(mod):
            m = self.load(mod, st)
            if m is None:
                self.raise_bi(st, 'ImportError', n, mod)
            for a in n.names:
                attrs = st.get(m.oid).attrs
                if a.name == '*':
                    if '__all__' in attrs:
                        es = self.entries(st, attrs['__all__'], n)
                        names = [e.v.v for e in es]
                    else:
                        names = [k for k in attrs if not k.startswith('_')]
                    for k in names:
                        self.store(k, st.get(m.oid).attrs[k], st, fr, n)
                    continue
                v = attrs.get(a.name)
                if v is None or v is UNDEF:
                    v = self.load(mod + '.' + a.name, st)
                    if v is None:
                        self.raise_bi(st, 'ImportError', n, '%s.%s' % (mod, a.name))
                self.store(a.asname or a.name, v, st, fr, n)
        else:
            for a in n.names:
                if a.name == '*':
                    continue
                self.store(a.asname or a.name, self.ext_attr(mod, a.name), st, fr, n)

    def ext_attr(self, mod, name):
        return self.models.ext_attr(self, mod, name)

    # ------------------------------------------------------- control utils
    def lift(self, st, v, fn):
        """apply fn to each alternative of v under its guard"""
        v = st.simp(v)
        if type(v) is not Ite:
            return fn(st, v)
        alts = []
        s1 = st.copy()
        s2 = st.copy()
        for s, pol, x in ((s1, True, v.a), (s2, False, v.b)):
            if not s.assume(v.c, pol):
                continue
            try:
                alts.append((s, self.lift(s, x, fn)))
            except PathDead:
                pass
        if not alts:
            raise PathDead()
        m, r = merge_states(alts)
        st.become(m)
        return r if r is not None else NONE

    def fork(self, st, c):
        """(true state or None, false state or None) for a condition value"""
        c = st.simp(c)
        if type(c) is Const:
            return (st, None) if c.v else (None, st)
        if type(c) is Ite:
            s1, s2 = st.copy(), st.copy()
            ts, fs = [], []
            if s1.assume(c.c, True):
                t, f = self.fork(s1, c.a)
                if t is not None:
                    ts.append((t, None))
                if f is not None:
                    fs.append((f, None))
            if s2.assume(c.c, False):
                t, f = self.fork(s2, c.b)
                if t is not None:
                    ts.append((t, None))
                if f is not None:
                    fs.append((f, None))
            t = merge_states(ts)[0] if ts else None
            f = merge_states(fs)[0] if fs else None
            return t, f
        k = st.known(c)
        if k is None and type(c) is Term and c.op in ('eq0', 'lt0', 'eq', 'is'):
            pass
        if k is not None:
            return (st, None) if k else (None, st)
        s1, s2 = st.copy(), st.copy()
        if not s1.assume(c, True):
            s1 = None
        if not s2.assume(c, False):
            s2 = None
        return s1, s2

    def branch(self, st, v, node):
        c = self.truth(st, v, node)
        if type(c) is not Const and self.listeners:
            self.emit('branch', st=st, cond=c, node=node, stack=self.stack)
        if OLD[0] is not None and OLD[0](c):
            t, f = self.fork(st, c)
            a = atom(c)
            for q, p in ((t, True), (f, False)):
                if q is not None:
                    q.assume(a, p)
            return t, f
        return self.fork(st, c)

    def truth(self, st, v, node=None):
        v = st.simp(v)
        t = type(v)
        if t is Const:
            self.emit('truth', st=st, value=v, node=node)
            return cbool(bool(v.v))
        if t is Ite:
            if self.pure_scalar(v):
                return self.truth_scalar(st, v, node)
            return self.lift(st, v, lambda s, x: self.truth(s, x, node))
        if t is Tup:
            return cbool(len(v.items) > 0)
        if t is Term:
            return self.truth_scalar(st, v, node)
        if t is Ref:
            o = st.get(v.oid)
            if o.kind in ('list', 'dict', 'set') or o.data is not None and o.kind == 'inst' and type(o.data) in (list, dict):
                if o.kind == 'inst':
                    m = self.find_method(st, v, '__bool__')
                    if m is None:
                        m = self.find_user_method(st, v, '__len__')
                    if m is not None:
                        r = self.call(st, Bound(m, v), [], {}, node)
                        return self.truth(st, r, node)
                return self.payload_truth(st, o)
            if o.kind == 'inst':
                if type(o.cls) is Ref and st.get(o.cls.oid).data.flag is None and st.get(o.cls.oid).data.enum and 'Flag' in st.get(o.cls.oid).data.enum:
                    return self.truth(st, o.attrs['_value_'], node)
                m = self.find_user_method(st, v, '__bool__')
                if m is None:
                    m = self.find_user_method(st, v, '__len__')
                if m is not None:
                    r = self.call(st, Bound(m, v), [], {}, node)
                    return self.truth(st, r, node)
                return TRUE
            if o.kind == 'ext':
                return Term('truth', (v,), 'bool')
            if o.kind == 'range':
                return Term('truth', (v,), 'bool')
            return TRUE
        return TRUE

    def pure_scalar(self, v):
        if type(v) is Ite:
            return self.pure_scalar(v.a) and self.pure_scalar(v.b)
        return type(v) in (Const, Term)

    def truth_scalar(self, st, v, node):
        if type(v) is Ite:
            return ite(v.c, self.truth_scalar(st, v.a, node), self.truth_scalar(st, v.b, node))
        if type(v) is Const:
            return cbool(bool(v.v))
        r = st.resolve(v)
        self.emit('truth', st=st, value=v, node=node)
        if type(r) is Const:
            return cbool(bool(r.v))
        if v.ty == 'bool':
            return v
        if v.ty in ('int', 'float'):
            lo, hi = interval(v)
            if lo > 0 or hi < 0:
                return TRUE
            return t_not(n_eq(v, Const(0)))
        if v.op == 'match':
            return Term('truth', (v,), 'bool')
        if v.op == 'cat':
            if any(type(p) is Const and p.v for p in v.args):
                return TRUE
        return Term('truth', (v,), 'bool')

    def payload_truth(self, st, o):
        d = o.data
        if o.kind == 'set' or (o.kind == 'inst' and type(d) is list and o.site == 'set'):
            d = self.set_elems(st, o)
            if d is None:
                return fresh('nonempty', 'bool')
        if type(d) is dict:
            es = list(d.values())
        else:
            es = d
        if not es:
            return FALSE
        r = FALSE
        for e in es:
            if getattr(e, 'many', False):
                return Term('nonempty', (e.v,), 'bool') if r == FALSE else r
            if not e.g:
                return TRUE
            c = conj(e.g)
            r = self.c_or(c, r)
        return st.simp(r)

    def c_or(self, a, b):
        if a == TRUE or b == TRUE:
            return TRUE
        if a == FALSE:
            return b
        if b == FALSE:
            return a
        if FLAT[0] and not (small(a, 8) and small(b, 8)):
            return atom(a, b)
        if type(a) is Ite:
            return ite(a.c, self.c_or(a.a, b), self.c_or(a.b, b))
        return ite(a, TRUE, pick(b, a, False))

    def c_and(self, a, b):
        return t_not(self.c_or(t_not(a), t_not(b)))

    # ---------------------------------------------------------- iteration
    def run_body(self, st, v, body, outs):
        """one iteration; returns the continuing state or None"""
        try:
            r = body(st, v)
        except PathDead:
            return None
        if r is None:
            return st
        normals = []
        for o in r:
            if o[0] in ('n', 'cont'):
                normals.append((o[1], None))
            else:
                outs.append(o)
        if not normals:
            return None
        if len(normals) == 1:
            return normals[0][0]
        return merge_states(normals)[0]

    def iterate(self, st, it, body, node, through=False):
        it = st.simp(it)
        self.emit('iterate', st=st, it=it, node=node)
        if type(it) is Ite:
            outs = []
            s1, s2 = st.copy(), st.copy()
            if s1.assume(it.c, True):
                outs.extend(self.iterate(s1, it.a, body, node, through))
            if s2.assume(it.c, False):
                outs.extend(self.iterate(s2, it.b, body, node, through))
            return self._merge_normals(outs)
        t = type(it)
        if t is Tup:
            return self.iter_values(st, it.items, body)
        if t is Const:
            if isinstance(it.v, (str, bytes)):
                return self.iter_values(st, [Const(c) for c in it.v], body)
            try:
                self.raise_bi(st, 'TypeError', node, '%r object is not iterable' % type(it.v).__name__)
            except PathDead:
                return []
        if t is Ref:
            o = st.get(it.oid)
            k = o.kind
            if k == 'gen':
                return self.run_gen(st, it, body, node, through)
            if k == 'list':
                return self.iter_list(st, it, body, node)
            if k == 'iter':
                return self.iter_iter(st, it, body, node)
            if k == 'range':
                a, b, s = o.data
                if all(type(x) is Const for x in o.data):
                    return self.iter_values(st, [Const(i) for i in range(a.v, b.v, s.v)], body)
                # a symbolic bound with a small known interval: guarded steps
                if type(a) is Const and type(s) is Const and s.v == 1:
                    lo, hi = interval(st.resolve(b))
                    if type(b) is Ite or (hi != INF and hi - a.v <= 64):
                        bb = st.resolve(b)
                        es = []
                        for i in range(a.v, int(hi) if hi != INF else 0):
                            c = self.cmp_lt(st, Const(i), bb, node)
                            es.append((Const(i), c))
                        return self.iter_guarded(st, es, body, node)
                return self.iter_unknown(st, Term('elem', (it,), 'int'), body, node)
            if k == 'lazy':
                return self.models.iter_lazy(self, st, it, body, node)
            if k in ('dict', 'set') or (k == 'inst' and type(o.data) in (dict, list)):
                if k == 'inst':
                    m = self.find_user_method(st, it, '__iter__')
                    if m is not None:
                        r = self.call(st, Bound(m, it), [], {}, node)
                        if r != it:
                            return self.iterate(st, r, body, node)
                if type(o.data) is dict:
                    es = [(e.k, conj(e.g)) for e in o.data.values()]
                    return self.iter_guarded(st, es, body, node)
                if k == 'set':
                    es = self.set_elems(st, o)
                    if es is None:
                        return self.iter_unknown(st, Term('elem', (it,)), body, node)
                    return self.iter_entries(st, es, body, node)
                return self.iter_list(st, it, body, node)
            if k == 'class' and o.data.enum:
                seen = []
                for m in o.data.members.values():
                    if m not in seen:
                        seen.append(m)
                return self.iter_values(st, seen, body)
            if k == 'inst':
                m = self.find_method(st, it, '__iter__')
                if m is not None:
                    try:
                        r = self.call_method(st, it, '__iter__', [], {}, node)
                    except PathDead:
                        return []
                    if r == it:
                        return self.iter_next(st, it, body, node)
                    return self.iterate(st, r, body, node, through)
                if type(o.cls) is Bi:
                    return self.models.iter_bi(self, st, it, body, node)
                if self.has_ext_base(st, it):
                    return self.iter_unknown(st, Term('elem', (it,)), body, node)
                m = self.find_method(st, it, '__getitem__')
                if m is not None:
                    return self.iter_unknown(st, Term('elem', (it,)), body, node)
                try:
                    self.raise_bi(st, 'TypeError', node, 'object is not iterable')
                except PathDead:
                    return []
            return self.iter_unknown(st, Term('elem', (it,)), body, node)
        if t is Term:
            vals = self.models.term_items(self, st, it)
            if vals is not None:
                return self.iter_values(st, vals, body)
        return self.iter_unknown(st, Term('elem', (it,)), body, node)

    def iter_values(self, st, vals, body):
        outs = []
        for v in vals:
            self.tick()
            st = self.run_body(st, v, body, outs)
            if st is None:
                return outs
        outs.append(('n', st, None))
        return outs

    def iter_guarded(self, st, es, body, node):
        outs = []
        for v, c in es:
            st = self.iter_one(st, v, c, body, outs)
            if st is None:
                return outs
        outs.append(('n', st, None))
        return outs

    def iter_one(self, st, v, c, body, outs):
        self.tick()
        t, f = self.fork(st, c)
        if t is None:
            return f
        t = self.run_body(t, v, body, outs)
        if f is None:
            return t
        if t is None:
            return f
        return merge_states([(t, None), (f, None)])[0]

    def iter_entries(self, st, es, body, node):
        outs = []
        for e in es:
            if e.many:
                r = self.iter_unknown(st, e.v, body, node)
                st = None
                for o in r:
                    if o[0] == 'n':
                        st = o[1]
                    else:
                        outs.append(o)
            else:
                st = self.iter_one(st, e.v, conj(e.g) if e.g else TRUE, body, outs)
            if st is None:
                return outs
        outs.append(('n', st, None))
        return outs

    def iter_list(self, st, ref, body, node):
        """live iteration over a list object"""
        outs = []
        i = 0
        while True:
            d = st.get(ref.oid).data
            if i >= len(d):
                break
            e = d[i]
            i += 1
            if i > 4000:
                raise Budget('list iteration')
            if e.many:
                r = self.iter_unknown(st, e.v, body, node)
                st = None
                for o in r:
                    if o[0] == 'n':
                        st = o[1]
                    else:
                        outs.append(o)
            else:
                st = self.iter_one(st, e.v, conj(e.g) if e.g else TRUE, body, outs)
            if st is None:
                return outs
        outs.append(('n', st, None))
        return outs

    def iter_iter(self, st, ref, body, node):
        """drain an iterator object (shared position)"""
        outs = []
        n = 0
        while True:
            n += 1
            if n > 4000:
                raise Budget('iterator')
            d = st.get(ref.oid).data
            if d.get('unknown'):
                r = self.iter_unknown(st, Term('elem', (ref,)), body, node)
                return outs + r
            es = d['entries']
            i = d['pos']
            if i >= len(es):
                break
            o = st.w(ref.oid)
            o.data = dict(d)
            o.data['pos'] = i + 1
            e = es[i]
            if e.many:
                r = self.iter_unknown(st, e.v, body, node)
                st = None
                for q in r:
                    if q[0] == 'n':
                        st = q[1]
                    else:
                        outs.append(q)
            else:
                st = self.iter_one(st, e.v, conj(e.g) if e.g else TRUE, body, outs)
            if st is None:
                return outs
        outs.append(('n', st, None))
        return outs

    def iter_next(self, st, it, body, node):
        """object with __next__"""
        outs = []
        n = 0
        while True:
            n += 1
            if n > 400:
                raise Budget('__next__')
            outer = self.sinks
            sink = []
            self.sinks = outer + (sink,)
            alive = True
            try:
                v = self.call_method(st, it, '__next__', [], {}, node)
            except PathDead:
                alive = False
            finally:
                self.sinks = outer
            stops = []
            for s, e in sink:
                if self.exc_matches(s, e, Bi('StopIteration')):
                    stops.append((s, None))
                else:
                    self.sinks[-1].append((s, e))
            if stops:
                m = merge_states(stops)[0] if len(stops) > 1 else stops[0][0]
                outs.append(('n', m, None))
            if not alive:
                break
            st = self.run_body(st, v, body, outs)
            if st is None:
                break
        return self._merge_normals(outs)

    def iter_unknown(self, st, elem, body, node):
        """loop over an unknown number of elements: two rounds with widening"""
        outs = []
        c = fresh('iterates', 'bool')
        pre, s = st.copy(), st.copy()
        pre.assume(c, False)
        s.assume(c, True)
        old = self.loops
        self.loops = old + (c,)
        self.emit('loop_unknown', st=st, elem=elem, node=node)
        try:
            s1 = self.run_body(s, elem, body, outs)
            if s1 is not None:
                c2 = fresh('iterates', 'bool')
                s2, s1b = s1.copy(), s1.copy()
                s1b.assume(c2, False)
                s2.assume(c2, True)
                e2 = Term('elem2', (elem,), ty_of(elem))
                self.emit('loop_again', st=s2, elem=e2, node=node)
                s3 = self.run_body(s2, e2, body, outs)
                ends = [(pre, None), (s1b, None)]
                if s3 is not None:
                    ends.append((s3, None))
                outs.append(('n', merge_states(ends)[0], None))
            else:
                outs.append(('n', pre, None))
        finally:
            self.loops = old
        return outs

    def run_gen(self, st, ref, body, node, through=False):
        o = st.get(ref.oid)
        d = o.data
        state = d['state']
        if state == 'done':
            return [('n', st, None)]
        if state == 'cut':
            return [('n', st, None)]
        if state == 'partial' or state == 'unknown':
            return self.iter_unknown(st, Term('elem', (ref,)), body, node)
        w = st.w(ref.oid)
        w.data = dict(d)
        w.data['state'] = 'done'
        saved = self.sinks
        saved_stack = list(self.stack)

        def consumer(s, v):
            if through:
                return body(s, v)
            gsinks = self.sinks
            self.sinks = saved
            gstack = self.stack
            self.stack = list(saved_stack)
            try:
                return body(s, v)
            finally:
                self.sinks = gsinks
                self.stack = gstack
        if 'comp' in d:
            comp, cfr = d['comp'], d['frame']
            fr = Frame(fd=cfr.fd, env=d['env'], module=cfr.module, modname=cfr.modname, cls=cfr.cls, first=cfr.first,
                       globals_=cfr.globals_, nonlocals=cfr.nonlocals, qual=cfr.qual, parent=cfr, consumer=consumer)
            outs = self.run_comp(comp, comp.generators, 0, st, fr, d['first_iter'],
                                 lambda s, f: consumer(s, self.eval(comp.elt, s, f)))
            return outs
        fd = d['fd']
        self.evaluated.add(fd.qual)
        fr = Frame(fd=fd, env=d['env'], module=fd.module, modname=fd.modname, cls=fd.cls, first=d.get('first'),
                   globals_=fd.globals_, nonlocals=fd.nonlocals, qual=fd.qual + '.<locals>', call_node=node,
                   consumer=consumer, parent=self.stack[-1] if self.stack else None)
        depth = sum(1 for f in self.stack if f.fd is not None and f.fd.node is fd.node)
        if depth > self.rec_limit and not self.init_mode:
            self.cuts.append((fd.qual, node))
            self.emit('cut', qual=fd.qual, node=node)
            return [('n', st, None)]
        if len(self.stack) > 120:
            raise Budget('depth')
        self.stack.append(fr)
        try:
            outs = self.exec_block(fd.node.body, st, fr)
        finally:
            self.stack.pop()
        res = []
        for k, s, v in outs:
            if k in ('n', 'ret'):
                res.append(('n', s, None))
            elif k == 'gx' and v[0] is fr:
                o2 = v[1]
                res.append((o2[0], s, o2[2]))
            else:
                res.append((k, s, v))
        return self._merge_normals(res)

    def run_comp(self, node, gens, i, st, fr, first_iter, emit):
        if i == len(gens):
            return emit(st, fr)
        g = gens[i]
        it = first_iter if i == 0 and first_iter is not None else self.eval(g.iter, st, fr)

        def body(s, v):
            self.assign(g.target, v, s, fr)
            cur = [s]
            outs = []
            for cnd in g.ifs:
                x = self.eval_test(cnd, cur[0], fr)
                t, f = self.branch(cur[0], x, cnd)
                if f is not None:
                    outs.append(('n', f, None))
                if t is None:
                    return outs
                cur[0] = t
            r = self.run_comp(node, gens, i + 1, cur[0], fr, None, emit)
            if r is None:
                r = [('n', cur[0], None)]
            return outs + r
        return self.iterate(st, it, body, node)

    def comp_frame(self, st, fr):
        env = st.new(Obj('env', None, {}, fr.env if st.get(fr.env).kind != 'module' else None)).oid
        f = Frame(fd=fr.fd, env=env, module=fr.module, modname=fr.modname, cls=fr.cls, first=fr.first,
                  globals_=fr.globals_, nonlocals=(), qual=fr.qual, parent=fr)
        f.consumer = fr.consumer
        f.excs = fr.excs
        if fr.classenv is not None:
            f.classenv = None
        return f

    def collect(self, st, it, node):
        """materialise an iterable into a fresh list object"""
        ref = self.new_list(st, [])

        def body(s, v):
            s.w(ref.oid).data.append(Entry(v, (), False))
            return None
        outs = self.iterate(st, it, self._collector(ref), node)
        ns = [(o[1], None) for o in outs if o[0] == 'n']
        if not ns:
            raise PathDead()
        m = merge_states(ns)[0] if len(ns) > 1 else ns[0][0]
        if m is not st:
            st.become(m)
        return ref

    def _collector(self, ref):
        def body(s, v):
            many = bool(self.loops) and self.is_loop_elem(v)
            s.w(ref.oid).data.append(Entry(v, (), many))
            return None
        return body

    def is_loop_elem(self, v):
        return False

    def entries(self, st, v, node=None):
        """list of Entry for an iterable value (consumes iterators); None when
        nothing is known about its elements"""
        v = st.simp(v)
        t = type(v)
        if t is Tup:
            return [Entry(x) for x in v.items]
        if t is Const and isinstance(v.v, str):
            return [Entry(Const(c)) for c in v.v]
        if t is Ref:
            o = st.get(v.oid)
            if o.kind == 'list' and type(o.data) is list:
                return list(o.data)
        if t is Term:
            vals = self.models.term_items(self, st, v)
            if vals is None:
                return None
            return [Entry(x) for x in vals]
        r = self.collect(st, v, node)
        return list(st.get(r.oid).data)

    # ---------------------------------------------------------- allocation
    def new_list(self, st, vals):
        return st.new(Obj('list', Bi('list'), {}, [Entry(v) for v in vals]))

    def new_list_entries(self, st, es):
        return st.new(Obj('list', Bi('list'), {}, list(es)))

    def new_dict(self, st, pairs, cls='dict'):
        d = {}
        r = st.new(Obj('dict', Bi(cls), {}, d))
        for k, v in pairs:
            st.w(r.oid).data[self.keyof(st, k)] = DEntry(k, v)
        return r

    def new_set(self, st, vals, cls='set'):
        r = st.new(Obj('set', Bi(cls), {}, []))
        for v in vals:
            self.models.set_add(self, st, r, v)
        return r

    def set_elems(self, st, o):
        """entries of a set payload, removal steps turned into guards; None if unknown"""
        return self.models.set_elems(self, st, o)

    # keys
    def keyof(self, st, v, node=None):
        """canonical key: equal keys for values known equal"""
        v = st.simp(v)
        t = type(v)
        if t is Const:
            x = v.v
            if isinstance(x, (bool, int, float)) and x == x:
                return ('n', x)
            return ('c', type(x).__name__, x if x == x else 'nan')
        if t is Tup:
            return ('t',) + tuple(self.keyof(st, x, node) for x in v.items)
        if t is Term:
            r = st.resolve(v)
            if type(r) is Const:
                return self.keyof(st, r)
            return ('s', r)
        if t is Ref:
            o = st.get(v.oid)
            if o.kind in ('list', 'dict'):
                self.raise_bi(st, 'TypeError', node, 'unhashable type: %r' % o.kind)
            if o.kind == 'set' and o.cls == Bi('frozenset'):
                es = self.set_elems(st, o)
                if es is not None:
                    return ('fs', frozenset(self.keyof(st, e.v) for e in es))
            if o.kind == 'inst' and type(o.cls) is Ref:
                eq = self.find_user_method(st, v, '__eq__')
                if eq is not None:
                    h = self.find_user_method(st, v, '__hash__')
                    if h is None or h == NONE:
                        # class defines __eq__ without __hash__
                        c = self.class_attr_owner(st, o.cls, '__eq__')
                        hc = self.class_attr_owner(st, o.cls, '__hash__')
                        if hc is None:
                            self.raise_bi(st, 'TypeError', node, 'unhashable type')
                        return ('r', v.oid)
                    ck = (v.oid, tuple(sorted((k, x) for k, x in o.attrs.items() if type(x) in (Const, Tup))) if o.attrs else ())
                    try:
                        k = self.keycache.get(ck)
                    except TypeError:
                        k = None
                    if k is None:
                        hv = self.call(st, Bound(h, v), [], {}, node)
                        # identity of the value: what __eq__ compares is taken
                        # from evaluating v == v2 lazily; use hash + eq-view
                        k = ('u', self.keyof(st, hv))
                        try:
                            self.keycache[ck] = k
                        except TypeError:
                            pass
                    return k
            return ('r', v.oid)
        if t is Ite:
            return ('s', v)
        return ('v', v)

    def key_alias(self, k1, k2):
        """True / False / None: do two canonical keys denote equal keys"""
        if k1 == k2:
            return True
        if self.key_symbolic(k1) or self.key_symbolic(k2):
            # symbolic against something structurally impossible
            if k1[0] == 't' and k2[0] == 't':
                if len(k1) != len(k2):
                    return False
                r = True
                for a, b in zip(k1[1:], k2[1:]):
                    x = self.key_alias(a, b)
                    if x is False:
                        return False
                    if x is None:
                        r = None
                return r
            if (k1[0] == 't') != (k2[0] == 't') and k1[0] != 's' and k2[0] != 's':
                return False
            for a, b in ((k1, k2), (k2, k1)):
                if a[0] == 's':
                    ta = ty_of(a[1])
                    if b[0] in ('t', 'r', 'u') and ta in ('int', 'str', 'float', 'bool'):
                        return False
                    if b[0] == 'n' and ta in ('str',):
                        return False
                    if b[0] == 'c' and b[1] == 'str' and ta in NUM:
                        return False
                    if b[0] == 'n' and ta in NUM:
                        lo, hi = interval(a[1])
                        if b[1] < lo or b[1] > hi:
                            return False
                    if b[0] == 's' and ta in NUM and ty_of(b[1]) in NUM:
                        r = n_eq(a[1], b[1])
                        if type(r) is Const:
                            return r.v
            return None
        return False

    def key_symbolic(self, k):
        if k[0] == 's':
            return True
        if k[0] == 't':
            return any(self.key_symbolic(x) for x in k[1:])
        return False

    # --------------------------------------------------- class & attribute
    def mro(self, st, cls):
        if type(cls) is Ref:
            return st.get(cls.oid).data.mro
        if type(cls) is Bi:
            return [Bi(x) for x in BI_MRO.get(cls.name, (cls.name, 'object'))]
        return []

    def is_subclass(self, st, c, h):
        """True/False/None"""
        h = st.simp(h)
        if type(h) is Tup:
            rs = [self.is_subclass(st, c, x) for x in h.items]
            return True if True in rs else (None if None in rs else False)
        if type(h) is Bi and h.name == 'object':
            return True
        if h in self.mro(st, c):
            return True
        if type(h) is Bi and type(c) in (Bi, Ref):
            for m in self.mro(st, c):
                if type(m) is Bi and h.name in ABCS.get(m.name, ()):
                    return True
            if h.name in KNOWN_TYPES or h.name in EXC:
                return False
        if type(h) is Ref and type(c) in (Bi, Ref):
            return False
        return None

    def class_of(self, st, v):
        t = type(v)
        if t is Const:
            return Bi(type(v.v).__name__)
        if t is Tup:
            return v.cls if v.cls is not None else Bi('tuple')
        if t is Ref:
            o = st.get(v.oid)
            return {'list': Bi('list'), 'dict': o.cls, 'set': o.cls, 'func': Bi('function'), 'class': Bi('type'),
                    'module': Bi('module'), 'gen': Bi('generator')}.get(o.kind, o.cls)
        if t is Term:
            if v.ty in KNOWN_TYPES:
                return Bi(v.ty)
            return None
        if t in (Bound, Bm):
            return Bi('method')
        if t is Bi:
            return Bi('type') if v.name in KNOWN_TYPES else Bi('builtin')
        return None

    def class_attr_owner(self, st, cls, name):
        for c in self.mro(st, cls):
            if type(c) is Ref and name in st.get(c.oid).attrs:
                return c
        return None

    def class_attr(self, st, cls, name, skip_to=None):
        """raw attribute found along the MRO (None if absent)"""
        m = self.mro(st, cls)
        if skip_to is not None and skip_to in m:
            m = m[m.index(skip_to) + 1:]
        for c in m:
            if type(c) is Ref:
                v = st.get(c.oid).attrs.get(name)
                if v is not None and v is not UNDEF:
                    return v
            elif type(c) is Bi and c.name != 'object':
                if self.models.has_method(c.name, name):
                    return Bi('method:%s.%s' % (c.name, name))
        return None

    def find_user_method(self, st, v, name):
        """function Ref defined by an analysed class, else None"""
        o = st.get(v.oid)
        if type(o.cls) is not Ref:
            return None
        for c in st.get(o.cls.oid).data.mro:
            if type(c) is Ref:
                x = st.get(c.oid).attrs.get(name)
                if x is not None and x is not UNDEF:
                    return x
            elif type(c) is Bi and c.name != 'object' and self.models.has_method(c.name, name):
                return None
        return None

    def find_method(self, st, v, name):
        if type(v) is not Ref:
            return None
        o = st.get(v.oid)
        if o.kind != 'inst':
            return None
        return self.class_attr(st, o.cls, name)

    def has_ext_base(self, st, v):
        o = st.get(v.oid)
        if type(o.cls) is Bi:
            return o.cls.name not in KNOWN_TYPES and o.cls.name not in EXC
        if type(o.cls) is Ref:
            for c in st.get(o.cls.oid).data.mro:
                if type(c) is Bi and c.name not in KNOWN_TYPES and c.name not in EXC and c.name not in NEUTRAL_BASES:
                    return True
                if type(c) not in (Bi, Ref):
                    return True
        return False

    def bind_attr(self, st, raw, inst, cls, node):
        """descriptor protocol"""
        if type(raw) is Ref:
            o = st.get(raw.oid)
            if o.kind == 'func':
                return Bound(raw, inst) if inst is not None else raw
            if o.kind == 'prop':
                if inst is None:
                    return raw
                return self.call(st, o.data[0], [inst], {}, node)
            if o.kind == 'cached':
                if inst is None:
                    return raw
                r = self.call(st, o.data, [inst], {}, node)
                return r
            if o.kind == 'static':
                return o.data
            if o.kind == 'classm':
                return Bound(o.data, cls)
            if o.kind == 'lru':
                return Bound(raw, inst) if inst is not None else raw
            if o.kind == 'partialmethod':
                return raw
        if type(raw) is Bi and raw.name.startswith('method:') and inst is not None:
            return Bm(inst, raw.name[7:].rsplit('.', 1)[1])
        return raw

    def get_attr(self, st, v, name, node, default=None):
        v = st.simp(v)
        t = type(v)
        if t is Ite:
            return self.lift(st, v, lambda s, x: self.get_attr(s, x, name, node, default))
        if t is Ref:
            o = st.get(v.oid)
            k = o.kind
            if k == 'inst':
                return self.inst_attr(st, v, o, name, node, default)
            if k == 'class':
                return self.class_get(st, v, o, name, node, default)
            if k == 'module':
                x = o.attrs.get(name)
                if x is not None and x is not UNDEF:
                    x = st.simp(x)
                    self.emit('gread', st=st, module=o.data, name=name, value=x, node=node)
                    return x
                x = self.load(o.data + '.' + name, st)
                if x is not None:
                    return x
                if default is not None:
                    return default
                self.raise_bi(st, 'AttributeError', node, 'module %s has no attribute %r' % (o.data, name))
            return self.models.obj_attr(self, st, v, o, name, node, default)
        if t is Tup and v.cls is not None:
            ci = st.get(v.cls.oid).data
            if name in ci.nt:
                return v.items[ci.nt.index(name)]
            x = self.class_attr(st, v.cls, name)
            if x is not None:
                return self.bind_attr(st, x, v, v.cls, node)
            return self.models.tuple_attr(self, st, v, name, node, default)
        if t is Super:
            return self.super_attr(st, v, name, node)
        return self.models.value_attr(self, st, v, name, node, default)

    def inst_attr(self, st, v, o, name, node, default=None):
        cls = o.cls
        raw = self.class_attr(st, cls, name)
        if type(raw) is Ref and st.get(raw.oid).kind == 'prop':
            return self.bind_attr(st, raw, v, cls, node)
        if name in o.attrs:
            x = o.attrs[name]
            if type(x) is Ite:
                x = st.simp(x)
                if type(x) is Ite:
                    x = self.drop_undef(st, x)
            if x is not UNDEF:
                self.emit('aread', st=st, oid=v.oid, name=name, value=x, node=node)
                return x
        ci = st.get(cls.oid).data if type(cls) is Ref else None
        if ci is not None and ci.enum:
            if name in ('name', 'value'):
                return o.attrs['_%s_' % name]
        if name == '__class__':
            return cls
        if name == '__dict__':
            d = self.new_dict(st, [(Const(k), x) for k, x in o.attrs.items() if x is not UNDEF and not k.startswith('~')])
            st.w(d.oid).attrs['~of'] = v
            return d
        if raw is not None:
            if ci is not None and not (type(raw) is Ref and st.get(raw.oid).kind in ('func', 'static', 'classm', 'prop')):
                self.emit('cread', st=st, cls=cls, name=name, value=raw, node=node, inst=v)
            r = self.bind_attr(st, raw, v, cls, node)
            if type(raw) is Ref and st.get(raw.oid).kind == 'cached':
                st.w(v.oid).attrs[name] = r
            return r
        if type(cls) is Bi:
            return self.models.bi_inst_attr(self, st, v, o, name, node, default)
        ga = self.class_attr(st, cls, '__getattr__')
        if ga is not None and type(ga) is Ref:
            return self.call(st, ga, [v, Const(name)], {}, node)
        if self.has_ext_base(st, v):
            return Term('attr', (v, name))
        if name in OBJECT_ATTRS:
            return Bm(v, name)
        if default is not None:
            return default
        self.raise_bi(st, 'AttributeError', node, '%s object has no attribute %r' % (ci.name if ci else cls, name))

    def class_get(self, st, v, o, name, node, default=None):
        ci = o.data
        if ci.enum and name == '__members__':
            return self.new_dict(st, [(Const(k), m) for k, m in ci.members.items()])
        if name == '__name__':
            return Const(ci.name)
        if name == '__qualname__':
            return Const(ci.name)
        if name == '__mro__':
            return Tup(ci.mro)
        if name == '__bases__':
            return Tup(ci.bases)
        if name == '__module__':
            return Const(ci.modname)
        if ci.nt and name == '_fields':
            return Tup([Const(x) for x in ci.nt])
        if ci.nt and name in ('_make',):
            return Bm(v, name)
        raw = self.class_attr(st, v, name)
        if raw is not None:
            if not (type(raw) is Ref and st.get(raw.oid).kind in ('func', 'static', 'classm', 'prop')):
                self.emit('cread', st=st, cls=v, name=name, value=raw, node=node, inst=None)
            return self.bind_attr(st, raw, None, v, node)
        if name == '__doc__':
            return NONE
        if name in OBJECT_ATTRS:
            return Bi('method:object.' + name)
        if default is not None:
            return default
        if any(type(c) is Bi and c.name not in KNOWN_TYPES and c.name not in NEUTRAL_BASES and c.name not in EXC for c in ci.mro):
            return Term('attr', (v, name))
        self.raise_bi(st, 'AttributeError', node, 'class %s has no attribute %r' % (ci.name, name))

    def super_attr(self, st, v, name, node):
        inst = v.self
        if type(inst) is Ref and st.get(inst.oid).kind == 'class':
            cls = inst
        elif type(inst) is Tup:
            cls = inst.cls
        elif type(inst) is Ref:
            cls = st.get(inst.oid).cls
        else:
            return Term('attr', (v.cls, name))
        raw = self.class_attr(st, cls, name, skip_to=v.cls)
        if raw is None:
            if name in OBJECT_ATTRS or name in ('__init__', '__new__', '__init_subclass__'):
                if name == '__new__':
                    return Bi('method:object.__new__')
                return Bi('noop')
            self.raise_bi(st, 'AttributeError', node, 'super object has no attribute %r' % name)
        if type(raw) is Ref and st.get(raw.oid).kind == 'func':
            if name == '__new__':
                return raw
            return Bound(raw, inst)
        if type(raw) is Bi and raw.name.startswith('method:'):
            if name == '__new__':
                return raw
            return Bm(inst, '!' + raw.name[7:])
        return self.bind_attr(st, raw, inst, cls, node)

    def set_attr(self, st, v, name, val, node):
        if type(v) is Ref:
            o = st.get(v.oid)
            if o.kind == 'inst' and type(o.cls) is Ref:
                raw = self.class_attr(st, o.cls, name)
                if type(raw) is Ref and st.get(raw.oid).kind == 'prop':
                    p = st.get(raw.oid).data
                    if p[1] is None:
                        self.raise_bi(st, 'AttributeError', node, "can't set attribute %r" % name)
                    self.call(st, p[1], [v, val], {}, node)
                    return NONE
                sa = self.class_attr(st, o.cls, '__setattr__')
                if type(sa) is Ref:
                    self.call(st, sa, [v, Const(name), val], {}, node)
                    return NONE
                if st.get(o.cls.oid).data.enum:
                    self.emit('mutate', st=st, oid=v.oid, what='attribute ' + name, node=node, stack=list(self.stack), name=name)
            self.emit('setattr', st=st, oid=v.oid, name=name, value=val, node=node, stack=list(self.stack))
            self.emit('mutate', st=st, oid=v.oid, what='attribute ' + name, node=node, stack=list(self.stack), name=name)
            st.w(v.oid).attrs[name] = val
            return NONE
        self.emit('setattr_ext', st=st, value=v, name=name, node=node)
        if type(v) is Tup:
            self.raise_bi(st, 'AttributeError', node, "can't set attribute")
        return NONE

    def del_attr(self, st, v, name, node):
        if type(v) is Ref:
            self.emit('mutate', st=st, oid=v.oid, what='attribute ' + name, node=node, stack=list(self.stack), name=name)
            st.w(v.oid).attrs[name] = UNDEF
        return NONE

    # --------------------------------------------------------------- calls
    def call(self, st, f, args, kwargs, node):
        f = st.simp(f)
        self.tick()
        t = type(f)
        if t is Ite:
            return self.lift(st, f, lambda s, x: self.call(s, x, list(args), dict(kwargs), node))
        if t is Bound:
            return self.call(st, f.f, [f.self] + list(args), kwargs, node)
        if t is Ref:
            o = st.get(f.oid)
            if o.kind == 'func':
                return self.call_func(st, f, args, kwargs, node)
            if o.kind == 'class':
                return self.instantiate(st, f, o, args, kwargs, node)
            if o.kind == 'static':
                return self.call(st, o.data, args, kwargs, node)
            if o.kind == 'lru':
                self.emit('cached_call', st=st, func=o.data, args=args, kwargs=kwargs, node=node)
                return self.call(st, o.data, args, kwargs, node)
            if o.kind == 'partial':
                f2, a2, k2 = o.data
                k = dict(k2)
                k.update(kwargs)
                return self.call(st, f2, list(a2) + list(args), k, node)
            if o.kind == 'ctxfactory':
                g = self.call(st, o.data, args, kwargs, node)
                return st.new(Obj('ctxgen', Bi('contextmanager'), {}, g, node))
            if o.kind == 'inst':
                m = self.find_method(st, f, '__call__')
                if m is not None:
                    return self.call(st, self.bind_attr(st, m, f, o.cls, node), args, kwargs, node)
                if type(o.cls) is Bi:
                    return self.models.call_bi_inst(self, st, f, o, args, kwargs, node)
                self.raise_bi(st, 'TypeError', node, 'object is not callable')
            if o.kind == 'getter':
                return self.models.call_getter(self, st, o, args, node)
            return self.models.call_obj(self, st, f, o, args, kwargs, node)
        if t is Bi:
            return self.models.call_bi(self, st, f, args, kwargs, node)
        if t is Bm:
            return self.models.call_method(self, st, f.recv, f.name, args, kwargs, node)
        if t is Const or t is Tup:
            self.raise_bi(st, 'TypeError', node, '%r is not callable' % (f,))
        return self.models.call_unknown(self, st, f, args, kwargs, node)

    def call_method(self, st, v, name, args, kwargs, node):
        f = self.get_special(st, v, name, node)
        return self.call(st, f, args, kwargs, node)

    def get_special(self, st, v, name, node):
        if type(v) is Ref and st.get(v.oid).kind == 'inst':
            raw = self.class_attr(st, st.get(v.oid).cls, name)
            if raw is not None:
                return self.bind_attr(st, raw, v, st.get(v.oid).cls, node)
        return self.get_attr(st, v, name, node)

    def instantiate(self, st, cref, co, args, kwargs, node):
        ci = co.data
        h = self.intercepts.get(ci.qual)
        if h is not None:
            r = h(self, st, cref, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if ci.enum:
            if not args:
                self.raise_bi(st, 'TypeError', node, 'enum call')
            return self.lift(st, args[0], lambda s, x: self.enum_member(s, cref, x, node))
        if ci.nt is not None:
            return self.models.make_nt(self, st, cref, ci, args, kwargs, node)
        new = self.class_attr(st, cref, '__new__')
        if type(new) is Ref:
            if st.get(new.oid).kind == 'static':
                new = st.get(new.oid).data
            obj = self.call(st, new, [cref] + list(args), kwargs, node)
        else:
            am = self.abstract_methods(st, cref)
            if am:
                self.raise_bi(st, 'TypeError', node, "Can't instantiate abstract class %s with abstract methods %s" % (ci.name, ', '.join(sorted(am))))
            obj = self.alloc(st, cref, node)
        obj = st.simp(obj)
        if type(obj) is Ite:
            return self.lift(st, obj, lambda s, x: self._init(s, x, cref, args, kwargs, node))
        return self._init(st, obj, cref, args, kwargs, node)

    def abstract_methods(self, st, cref):
        seen = set()
        out = set()
        ci = st.get(cref.oid).data
        for c in ci.mro:
            if type(c) is not Ref:
                continue
            for k, v in st.get(c.oid).attrs.items():
                if k in seen:
                    continue
                seen.add(k)
                if type(v) is Ref:
                    o = st.get(v.oid)
                    if o.attrs.get('__isabstractmethod__') == TRUE:
                        out.add(k)
                    elif o.kind == 'prop' and o.data[0] is not None and type(o.data[0]) is Ref and st.get(o.data[0].oid).attrs.get('__isabstractmethod__') == TRUE:
                        out.add(k)
        if not out:
            return out
        # only classes with ABCMeta enforce; all users here go through ABCMeta
        for c in ci.mro:
            if type(c) is Ref:
                n = st.get(c.oid).data.node
                if n is not None and any(k.arg == 'metaclass' for k in n.keywords):
                    return out
            elif type(c) is Bi and c.name in ('abc.ABC',):
                return out
        return set()

    def alloc(self, st, cref, node):
        kind, data, site = 'inst', None, node
        for c in self.mro(st, cref):
            if type(c) is Bi:
                if c.name in ('dict', 'collections.Counter', 'collections.OrderedDict', 'collections.defaultdict'):
                    data = {}
                    break
                if c.name in ('list',):
                    data = []
                    break
                if c.name == 'set':
                    data = []
                    site = 'set'
                    break
        return st.new(Obj('inst', cref, {}, data, site))

    def _init(self, st, obj, cref, args, kwargs, node):
        if type(obj) is not Ref:
            return obj
        o = st.get(obj.oid)
        if o.kind != 'inst' or self.is_subclass(st, o.cls, cref) is not True:
            return obj
        init = self.class_attr(st, o.cls, '__init__')
        if type(init) is Ref:
            r = self.call(st, init, [obj] + list(args), kwargs, node)
        elif type(init) is Bi:
            self.models.call_method(self, st, obj, '!' + init.name[7:], args, kwargs, node)
        elif args or kwargs:
            ci = st.get(o.cls.oid).data
            if ci.dataclass:
                self.models.dataclass_init(self, st, obj, ci, args, kwargs, node)
            elif not self.has_ext_base(st, obj) and type(self.class_attr(st, cref, '__new__')) is not Ref:
                if not any(type(c) is Bi and (c.name in EXC) for c in ci.mro):
                    self.raise_bi(st, 'TypeError', node, '%s() takes no arguments' % ci.name)
                st.w(obj.oid).attrs['args'] = Tup(args)
        else:
            ci = st.get(o.cls.oid).data
            if ci.dataclass:
                self.models.dataclass_init(self, st, obj, ci, args, kwargs, node)
        self.emit('new', st=st, oid=obj.oid, cls=cref, args=args, kwargs=kwargs, node=node)
        return obj

    # --------------------------------------------------------- expressions
    def eval_test(self, n, st, fr):
        return self.eval(n, st, fr)

    def eval(self, n, st, fr):
        self.tick()
        return getattr(self, 'e_' + type(n).__name__)(n, st, fr)

    def e_Constant(self, n, st, fr):
        if self.literals:
            r = self.literals.get((getattr(n, '_mod', None), type(n.value), n.value))
            if r is not None:
                return r
        return Const(n.value)

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr, n)

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Tuple(self, n, st, fr):
        return Tup(self.eval_elts(n.elts, st, fr))

    def eval_elts(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                es = self.entries(st, v, e)
                if es is None or any(x.g or x.many for x in es):
                    out.append(Term('star', (v,)))
                else:
                    out.extend(x.v for x in es)
            else:
                out.append(self.eval(e, st, fr))
        return out

    def e_List(self, n, st, fr):
        return self.new_list(st, self.eval_elts(n.elts, st, fr))

    def e_Set(self, n, st, fr):
        return self.new_set(st, self.eval_elts(n.elts, st, fr))

    def e_Dict(self, n, st, fr):
        r = self.new_dict(st, [])
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.eval(v, st, fr)
                self.models.dict_update(self, st, r, m, n)
            else:
                kv = self.eval(k, st, fr)
                vv = self.eval(v, st, fr)
                self.models.dict_set(self, st, r, kv, vv, n)
        return r

    def e_Lambda(self, n, st, fr):
        a = n.args
        defaults = tuple(self.eval(d, st, fr) for d in a.defaults)
        kwd = {x.arg: (self.eval(d, st, fr) if d is not None else None) for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        return self.make_func(n, st, fr, defaults, kwd)

    def e_IfExp(self, n, st, fr):
        v = self.eval_test(n.test, st, fr)
        ts, fs = self.branch(st, v, n.test)
        alts = []
        for s, e in ((ts, n.body), (fs, n.orelse)):
            if s is None:
                continue
            try:
                alts.append((s, self.eval(e, s, fr)))
            except PathDead:
                pass
        if not alts:
            raise PathDead()
        m, r = merge_states(alts)
        if m is not st:
            st.become(m)
        return st.simp(r)

    def e_BoolOp(self, n, st, fr):
        return self.boolop(isinstance(n.op, ast.And), n.values, st, fr)

    def boolop(self, is_and, vals, st, fr):
        v = self.eval(vals[0], st, fr)
        if len(vals) == 1:
            return v
        ts, fs = self.branch(st, v, vals[0])
        go, stop = (ts, fs) if is_and else (fs, ts)
        alts = []
        if go is not None:
            try:
                alts.append((go, self.boolop(is_and, vals[1:], go, fr)))
            except PathDead:
                pass
        if stop is not None:
            x = stop.simp(v)
            if type(x) is Term and x.ty == 'bool':
                x = FALSE if is_and else TRUE
            alts.append((stop, x))
        if not alts:
            raise PathDead()
        m, r = merge_states(alts)
        if m is not st:
            st.become(m)
        return st.simp(r)

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return t_not(self.truth(st, v, n.operand))
        return self.unop(st, type(n.op).__name__, v, n)

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.binop(st, type(n.op).__name__, a, b, n)

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        res = None
        if len(n.ops) == 1:
            right = self.eval(n.comparators[0], st, fr)
            return self.compare(st, type(n.ops[0]).__name__, left, right, n)
        acc = TRUE
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, st, fr)
            r = self.compare(st, type(op).__name__, left, right, n)
            acc = self.c_and(acc, self.truth(st, r, n))
            left = right
        return acc

    def e_Call(self, n, st, fr):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and not n.keywords:
            f = fr
            while f is not None and f.cls is None and f.parent is not None and f.fd is None:
                f = f.parent
            cls, first = fr.cls, fr.first
            p = fr
            while cls is None and p.parent is not None:
                p = p.parent
                cls, first = p.cls, p.first
            if cls is None:
                self.raise_bi(st, 'RuntimeError', n, 'super(): no arguments')
            return Super(cls, first)
        f = self.eval(n.func, st, fr)
        args = []
        unknown = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                es = self.entries(st, v, a)
                if es is None or any(x.g or x.many for x in es):
                    unknown = ('*', v)
                else:
                    args.extend(x.v for x in es)
            else:
                args.append(self.eval(a, st, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                v = st.simp(v)
                d = self.models.dict_items(self, st, v)
                if d is None and type(v) is Ref and st.get(v.oid).kind == 'inst' and self.find_user_method(st, v, 'keys') is not None:
                    es = self.entries(st, self.call_method(st, v, 'keys', [], {}, n), n)
                    if es is not None and not any(x.g or x.many for x in es):
                        d = [(st.simp(x.v), self.models.get_item(self, st, v, st.simp(x.v), n)) for x in es]
                if d is None:
                    kwargs['**'] = v
                else:
                    for kk, vv in d:
                        if type(kk) is Const and isinstance(kk.v, str):
                            if kk.v in kwargs:
                                self.raise_bi(st, 'TypeError', n, 'multiple values for keyword argument %r' % kk.v)
                            kwargs[kk.v] = vv
                        else:
                            kwargs['**'] = v
            else:
                if k.arg in kwargs:
                    self.raise_bi(st, 'TypeError', n, 'multiple values for keyword argument %r' % k.arg)
                kwargs[k.arg] = v
        if unknown is not None:
            args.append(unknown)
        return self.call(st, f, args, kwargs, n)

    def e_Attribute(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        return self.get_attr(st, v, n.attr, n)

    def eval_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return Term('slice', tuple(self.eval(x, st, fr) if x is not None else NONE for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_index(x, st, fr) for x in s.elts])
        if type(s).__name__ == 'Index':
            return self.eval_index(s.value, st, fr)
        return self.eval(s, st, fr)

    def e_Subscript(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        k = self.eval_index(n.slice, st, fr)
        return self.get_item(st, v, k, n)

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(Const(x.value))
            else:
                v = self.eval(x.value, st, fr)
                spec = ''
                if x.format_spec is not None:
                    sv = self.eval(x.format_spec, st, fr)
                    spec = sv.v if type(sv) is Const else '?'
                conv = {115: 's', 114: 'r', 97: 'a'}.get(x.conversion)
                parts.append(self.models.fmt_value(self, st, v, conv, spec, n))
        return self.models.cat_values(self, st, parts)

    def e_FormattedValue(self, n, st, fr):
        return self.models.fmt_value(self, st, self.eval(n.value, st, fr), None, '', n)

    def e_ListComp(self, n, st, fr):
        ref = self.new_list(st, [])
        f = self.comp_frame(st, fr)
        it = self.eval(n.generators[0].iter, st, fr)
        col = self._collector(ref)
        outs = self.run_comp(n, n.generators, 0, st, f, it, lambda s, g: col(s, self.eval(n.elt, s, g)))
        self._settle(st, outs)
        return ref

    def _settle(self, st, outs):
        ns = [(o[1], None) for o in outs if o[0] == 'n']
        if not ns:
            raise PathDead()
        m = merge_states(ns)[0] if len(ns) > 1 else ns[0][0]
        if m is not st:
            st.become(m)

    def e_SetComp(self, n, st, fr):
        ref = self.new_set(st, [])
        f = self.comp_frame(st, fr)
        it = self.eval(n.generators[0].iter, st, fr)

        def emit(s, g):
            self.models.set_add(self, s, ref, self.eval(n.elt, s, g))
        outs = self.run_comp(n, n.generators, 0, st, f, it, emit)
        self._settle(st, outs)
        return ref

    def e_DictComp(self, n, st, fr):
        ref = self.new_dict(st, [])
        f = self.comp_frame(st, fr)
        it = self.eval(n.generators[0].iter, st, fr)

        def emit(s, g):
            k = self.eval(n.key, s, g)
            v = self.eval(n.value, s, g)
            self.models.dict_set(self, s, ref, k, v, n, quiet=True)
        outs = self.run_comp(n, n.generators, 0, st, f, it, emit)
        self._settle(st, outs)
        return ref

    def e_GeneratorExp(self, n, st, fr):
        f = self.comp_frame(st, fr)
        it = self.eval(n.generators[0].iter, st, fr)
        return st.new(Obj('gen', Bi('generator'), {}, {'state': 'new', 'comp': n, 'frame': f, 'env': f.env, 'first_iter': it}, n))

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Slice(self, n, st, fr):
        return self.eval_index(n, st, fr)

    def e_Yield(self, n, st, fr):
        r = self.x_Expr(ast.copy_location(ast.Expr(n), n), st, fr)
        if r is not None:
            self._settle(st, r)
        return NONE

    def e_YieldFrom(self, n, st, fr):
        return self.e_Yield(n, st, fr)

    def e_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    # operators, items: delegated to the models
    def binop(self, st, op, a, b, node):
        return self.models.binop(self, st, op, a, b, node)

    def inplace(self, st, op, a, b, node):
        return self.models.inplace(self, st, op, a, b, node)

    def unop(self, st, op, v, node):
        return self.models.unop(self, st, op, v, node)

    def compare(self, st, op, a, b, node):
        return self.models.compare(self, st, op, a, b, node)

    def cmp_lt(self, st, a, b, node):
        return self.truth(st, self.compare(st, 'Lt', a, b, node), node)

    def get_item(self, st, v, k, node):
        return self.models.get_item(self, st, v, k, node)

    def set_item(self, st, v, k, val, node):
        r = self.models.set_item(self, st, v, k, val, node)
        self.sync(st, v, node)
        return r

    def del_item(self, st, v, k, node):
        r = self.models.del_item(self, st, v, k, node)
        self.sync(st, v, node)
        return r

    def sync(self, st, v, node):
        """writes through x.__dict__ reach the attributes of x"""
        v = st.simp(v)
        if type(v) is not Ref:
            return
        o = st.get(v.oid)
        of = (o.attrs or {}).get('~of')
        if of is None or type(o.data) is not dict:
            return
        seen = set()
        for k, e in list(o.data.items()):
            if type(e.k) is not Const or not isinstance(e.k.v, str):
                continue
            n = e.k.v
            seen.add(n)
            cur = st.get(of.oid).attrs.get(n, UNDEF)
            x = e.v
            for c, p in reversed(e.g):
                x = Ite(c, x, cur) if p else Ite(c, cur, x)
            if x is not cur and x != cur:
                self.emit('setattr', st=st, oid=of.oid, name=n, value=x, node=node, stack=list(self.stack))
                self.emit('mutate', st=st, oid=of.oid, what='attribute ' + n, node=node, stack=list(self.stack), name=n)
                st.w(of.oid).attrs[n] = x
        for n in list(st.get(of.oid).attrs):
            if n not in seen and not n.startswith('~') and st.get(of.oid).attrs[n] is not UNDEF:
                self.del_attr(st, of, n, node)


EXC = {}


def _fill_exc():
    import builtins
    for k in dir(builtins):
        x = getattr(builtins, k)
        if isinstance(x, type) and issubclass(x, BaseException):
            EXC[k] = tuple(c.__name__ for c in x.__mro__)


_fill_exc()

BI_MRO = dict(EXC)
BI_MRO.update({
    'bool': ('bool', 'int', 'object'),
    'collections.Counter': ('collections.Counter', 'dict', 'object'),
    'collections.OrderedDict': ('collections.OrderedDict', 'dict', 'object'),
    'collections.defaultdict': ('collections.defaultdict', 'dict', 'object'),
    'enum.Flag': ('enum.Flag', 'enum.Enum', 'object'),
    'enum.IntEnum': ('enum.IntEnum', 'int', 'enum.Enum', 'object'),
    'enum.IntFlag': ('enum.IntFlag', 'int', 'enum.Flag', 'enum.Enum', 'object'),
    'object': ('object',),
})
ENUMS = ('enum.Enum', 'enum.Flag', 'enum.IntEnum', 'enum.IntFlag')
NEUTRAL_BASES = set(ENUMS) | {'abc.ABC', 'typing.Generic', 'typing.Protocol', 'object'}
KNOWN_TYPES = {'int', 'float', 'str', 'bytes', 'bool', 'NoneType', 'list', 'dict', 'set', 'frozenset', 'tuple', 'type',
               'object', 'function', 'generator', 'method', 'collections.Counter', 'collections.OrderedDict',
               'collections.defaultdict', 'range', 'module', 'collections.deque', 'ellipsis', 'complex', 'builtin',
               'argparse.Namespace'} | NEUTRAL_BASES
ABCS = {
    'dict': ('collections.abc.Mapping', 'collections.abc.MutableMapping', 'collections.abc.Iterable', 'typing.Mapping', 'typing.Dict', 'collections.abc.Sized', 'collections.abc.Container', 'collections.abc.Collection'),
    'list': ('collections.abc.Sequence', 'collections.abc.Iterable', 'typing.List', 'collections.abc.MutableSequence', 'collections.abc.Collection'),
    'tuple': ('collections.abc.Sequence', 'collections.abc.Iterable', 'collections.abc.Collection'),
    'str': ('collections.abc.Sequence', 'collections.abc.Iterable', 'collections.abc.Collection'),
    'set': ('collections.abc.Set', 'collections.abc.Iterable', 'collections.abc.Collection'),
    'int': ('numbers.Number', 'numbers.Integral', 'numbers.Real'),
    'float': ('numbers.Number', 'numbers.Real'),
    'bool': ('numbers.Number', 'numbers.Integral', 'numbers.Real'),
}
OBJECT_ATTRS = {'__init__', '__str__', '__repr__', '__eq__', '__ne__', '__hash__', '__class__', '__setattr__', '__getattribute__',
                '__format__', '__reduce__', '__doc__', '__module__', '__dir__', '__new__', '__delattr__'}
