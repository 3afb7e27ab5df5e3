"""Abstract interpretation of a page layout (jinja2 syntax tree) on abstract values, and its flow of untrusted text."""
import os, sys, glob
from .lib import *


def jinja():
    """the syntax tree part of jinja2, from wherever the package's own interpreter has it"""
    try:
        import jinja2
        return jinja2
    except ImportError:
        pass
    for p in sorted(glob.glob('/opt/pypyvenv/lib/*/site-packages') + glob.glob('/opt/veriftools/pyvenv/lib/*/site-packages')
                    + glob.glob('/opt/*/lib/python3*/site-packages')):
        if os.path.isdir(os.path.join(p, 'jinja2')):
            sys.path.append(p)
            try:
                import jinja2
                return jinja2
            except ImportError:
                sys.path.remove(p)
    return None


class Missing:
    def __init__(self, what):
        self.what = what


class Unknown:
    def __init__(self, why=''):
        self.why = why


class Safe:
    def __init__(self, pieces):
        self.pieces = pieces


class Macro:
    def __init__(self, node, tmpl, env):
        self.node, self.tmpl, self.env = node, tmpl, env


class LoopVar:
    def __init__(self, i, n):
        self.i, self.n = i, n


class Own:
    """a value made by the layout itself (list, dictionary, …) of layout values"""

    def __init__(self, v):
        self.v = v


class Stop(Exception):
    pass


NUMERIC = {'int', 'float', 'length', 'count', 'round', 'abs', 'sum', 'wordcount'}
ESCAPING = {'e', 'escape', 'forceescape', 'urlencode', 'tojson', 'xmlattr'}
TEXTUAL = {'lower', 'upper', 'string', 'trim', 'replace', 'join', 'title', 'capitalize', 'truncate', 'default', 'd', 'first', 'last', 'list', 'sort',
           'unique', 'format', 'indent', 'center', 'wordwrap', 'reverse', 'striptags', 'urlize', 'map', 'select', 'reject', 'selectattr', 'rejectattr',
           'batch', 'slice', 'groupby', 'dictsort', 'items', 'max', 'min', 'attr', 'random', 'pprint', 'filesizeformat'}


class Layout:
    def __init__(self, S, root, name):
        self.S, self.root, self.name = S, root, name
        self.j = jinja()
        self.trees = {}

    def path(self, name):
        return os.path.join(self.root, name)

    def tree(self, name):
        if name not in self.trees:
            with open(self.path(name), encoding='utf-8') as f:
                src = f.read()
            self.trees[name] = self.j.Environment().parse(src)
        return self.trees[name]

    def builtin_filters(self):
        from jinja2.filters import FILTERS
        return set(FILTERS)

    def names(self):
        """templates reachable from the first"""
        n = self.j.nodes
        todo, out = [self.name], []
        while todo:
            t = todo.pop()
            if t in out:
                continue
            out.append(t)
            for x in self.tree(t).find_all((n.Include, n.Import, n.FromImport, n.Extends)):
                if isinstance(x.template, n.Const) and isinstance(x.template.value, str):
                    todo.append(x.template.value)
        return out


class Flow:
    """flow-insensitive within a scope: which expressions may carry text of a record"""

    def __init__(self, layout, sources, kinds, report):
        self.L, self.sources, self.kinds, self.report = layout, sources, kinds, report
        self.n = layout.j.nodes
        self.done = set()

    def run(self):
        self.macros = {}
        for t in self.L.names():
            for m in self.L.tree(t).find_all(self.n.Macro):
                self.macros[m.name] = (t, m)
        self.params = {}
        for _ in range(20):
            before = repr(sorted(self.params.items()))
            self.quiet = True
            for t in self.L.names():
                self.body(t, self.L.tree(t).body, dict(self.sources), True)
            if repr(sorted(self.params.items())) == before:
                break
        self.quiet = False
        for t in self.L.names():
            self.body(t, self.L.tree(t).body, dict(self.sources), True)

    def body(self, t, nodes, env, auto):
        for x in nodes:
            auto = self.stmt(t, x, env, auto)

    def assign(self, target, v, env):
        n = self.n
        if isinstance(target, n.Name):
            env[target.name] = env.get(target.name, False) or v if v is not None else env.get(target.name)
        elif isinstance(target, (n.Tuple, n.List)):
            for y in target.items:
                self.assign(y, v, env)

    def stmt(self, t, x, env, auto):
        n = self.n
        if isinstance(x, n.Output):
            for y in x.nodes:
                if not isinstance(y, n.TemplateData):
                    v = self.expr(t, y, env, auto)
                    if not self.quiet:
                        self.report('output', t, y, v, auto)
        elif isinstance(x, n.For):
            v = self.expr(t, x.iter, env, auto)
            e = dict(env)
            self.assign(x.target, v, e)
            e['loop'] = v
            if x.test is not None:
                self.expr(t, x.test, e, auto)
            for _ in range(2):
                self.body(t, x.body, e, auto)
            self.body(t, x.else_, env, auto)
            for k in env:
                env[k] = env[k] or e.get(k, False) if k != 'loop' and e.get(k) is not None else env[k]
        elif isinstance(x, n.If):
            self.expr(t, x.test, env, auto)
            self.body(t, x.body, env, auto)
            for y in x.elif_:
                self.stmt(t, y, env, auto)
            self.body(t, x.else_, env, auto)
        elif isinstance(x, n.Macro):
            e = dict(env)
            for i, a in enumerate(x.args):
                e[a.name] = self.params.get((x.name, a.name), False)
            for k in ('varargs', 'kwargs', 'caller'):
                e[k] = self.params.get((x.name, k), False)
            self.body(t, x.body, e, auto)
        elif isinstance(x, n.CallBlock):
            self.expr(t, x.call, env, auto)
            self.body(t, x.body, dict(env), auto)
        elif isinstance(x, n.FilterBlock):
            self.body(t, x.body, env, auto)
        elif isinstance(x, n.Assign):
            self.assign(x.target, self.expr(t, x.node, env, auto), env)
        elif isinstance(x, n.AssignBlock):
            self.body(t, x.body, env, auto)
            self.assign(x.target, False if auto else True, env)
        elif isinstance(x, n.With):
            e = dict(env)
            for k, v in zip(x.targets, x.values):
                self.assign(k, self.expr(t, v, env, auto), e)
            self.body(t, x.body, e, auto)
        elif isinstance(x, (n.Block, n.Scope)):
            self.body(t, x.body, dict(env) if isinstance(x, n.Scope) else env, auto)
        elif isinstance(x, n.ScopedEvalContextModifier):
            self.body(t, x.body, env, self.modifier(x, auto))
        elif isinstance(x, n.EvalContextModifier):
            return self.modifier(x, auto)
        elif isinstance(x, n.ExprStmt):
            self.expr(t, x.node, env, auto)
        return auto

    def modifier(self, x, auto):
        for o in x.options:
            if o.key == 'autoescape':
                v = getattr(o.value, 'value', None)
                return v if isinstance(v, bool) else None
        return auto

    def expr(self, t, x, env, auto):
        """may the value hold text of a record: True / False / None (cannot tell)"""
        n = self.n
        r = self.expr_(t, x, env, auto)
        k = self.kinds.get(id(x))
        if r and k and k <= {'number'}:
            return False
        return r

    def expr_(self, t, x, env, auto):
        n = self.n
        if isinstance(x, n.Name):
            return env.get(x.name, False)
        if isinstance(x, (n.Const, n.TemplateData)):
            return False
        if isinstance(x, n.Filter):
            args = [x.node] if x.node is not None else []
            vs = [self.expr(t, y, env, auto) for y in args + list(x.args) + [k.value for k in x.kwargs]]
            v = may(vs)
            if x.name == 'safe':
                if not self.quiet:
                    self.report('safe', t, x, vs[0] if vs else False, auto)
                return v
            if x.name in NUMERIC or x.name in ESCAPING:
                return False
            if x.name in TEXTUAL:
                return v
            return None if v else v
        if isinstance(x, n.Call):
            vs = [self.expr(t, y, env, auto) for y in list(x.args) + [k.value for k in x.kwargs]]
            vs += [self.expr(t, y, env, auto) for y in (x.dyn_args, x.dyn_kwargs) if y is not None]
            if isinstance(x.node, n.Name) and x.node.name in self.macros:
                _, m = self.macros[x.node.name]
                for i, v in enumerate(vs[:len(x.args)]):
                    self.pass_(m, m.args[i].name if i < len(m.args) else 'varargs', v)
                for k, v in zip(x.kwargs, vs[len(x.args):]):
                    self.pass_(m, k.key if any(a.name == k.key for a in m.args) else 'kwargs', v)
                if x.dyn_args is not None or x.dyn_kwargs is not None:
                    for a in m.args:
                        self.pass_(m, a.name, may(vs))
                return False if auto else may(vs)
            if isinstance(x.node, n.Name) and x.node.name in ('range', 'lipsum', 'cycler', 'joiner', 'dict', 'namespace') and x.node.name not in env:
                return may(vs)
            f = self.expr(t, x.node, env, auto)
            return may(vs + [f])
        if isinstance(x, (n.Compare, n.Test, n.Not)):
            for y in x.iter_child_nodes():
                if isinstance(y, n.Expr):
                    self.expr(t, y, env, auto)
            return False
        if isinstance(x, n.CondExpr):
            self.expr(t, x.test, env, auto)
            return may([self.expr(t, x.expr1, env, auto), self.expr(t, x.expr2, env, auto) if x.expr2 is not None else False])
        if isinstance(x, (n.MarkSafe, n.MarkSafeIfAutoescape)):
            v = self.expr(t, x.expr, env, auto)
            if not self.quiet:
                self.report('safe', t, x, v, auto)
            return v
        vs = []
        for y in x.iter_child_nodes():
            if isinstance(y, n.Expr):
                vs.append(self.expr(t, y, env, auto))
            elif isinstance(y, (n.Pair, n.Keyword)):
                vs.append(self.expr(t, y.value, env, auto))
        return may(vs)

    def pass_(self, m, name, v):
        k = (m.name, name)
        self.params[k] = may([self.params.get(k, False), v])


def may(vs):
    if any(v is True for v in vs):
        return True
    return None if any(v is None for v in vs) else False


class Render:
    """the layout followed on one set of abstract values"""

    def __init__(self, layout, st, values, filters, err, kinds, listen=None):
        self.listen = listen
        self.L, self.S, self.I, self.st = layout, layout.S, layout.S.I, st
        self.n = layout.j.nodes
        self.values, self.filters, self.err, self.kinds = values, filters, err, kinds
        self.sure, self.t, self.reads, self.fcache = True, layout.name, {}, {}
        self.steps = 0

    def run(self):
        out = []
        self.body(self.L.tree(self.L.name).body, dict(self.values), out)
        return out

    def fail(self, x, what):
        if self.sure:
            self.err(self.t, x, what)
        raise Stop()

    def body(self, nodes, env, out):
        for x in nodes:
            self.stmt(x, env, out)

    def stmt(self, x, env, out):
        n = self.n
        self.steps += 1
        if isinstance(x, n.Output):
            for y in x.nodes:
                if isinstance(y, n.TemplateData):
                    out.append(y.data)
                    continue
                try:
                    v = self.ex(y, env)
                except Stop:
                    out.append(Unknown('failed'))
                    continue
                out.extend(self.text(y, v))
        elif isinstance(x, n.For):
            try:
                items = self.items(x.iter, self.ex(x.iter, env))
            except Stop:
                return
            if items is None:
                e = dict(env)
                self.bind(x.target, Unknown(), e)
                e['loop'] = Unknown()
                self.unsure(x.body, e)
                out.append(Unknown('loop'))
                return
            if x.test is not None:
                keep = []
                for v in items:
                    e = dict(env)
                    self.bind(x.target, v, e)
                    try:
                        b = self.truth(self.ex(x.test, e))
                    except Stop:
                        b = None
                    if b is None:
                        e['loop'] = Unknown()
                        self.unsure(x.body, e)
                        out.append(Unknown('loop'))
                    if b:
                        keep.append(v)
                items = keep
            for i, v in enumerate(items):
                e = dict(env)
                self.bind(x.target, v, e)
                e['loop'] = LoopVar(i, len(items))
                self.body(x.body, e, out)
            if not items:
                self.body(x.else_, env, out)
        elif isinstance(x, n.If):
            try:
                b = self.truth(self.ex(x.test, env))
            except Stop:
                return
            if b is None:
                self.unsure(x.body, env)
                self.unsure(x.elif_, env)
                self.unsure(x.else_, env)
                out.append(Unknown('branch'))
            elif b:
                self.body(x.body, env, out)
            elif x.elif_:
                y = x.elif_[0]
                self.stmt(n.If(y.test, y.body, x.elif_[1:], x.else_, lineno=y.lineno), env, out)
            else:
                self.body(x.else_, env, out)
        elif isinstance(x, n.Macro):
            env[x.name] = Macro(x, self.t, env)
        elif isinstance(x, n.CallBlock):
            o = []
            self.body(x.body, dict(env), o)
            e = dict(env)
            e['caller'] = Safe(o)
            out.extend(self.text(x, self.ex(x.call, env, caller=Safe(o))))
        elif isinstance(x, n.FilterBlock):
            o = []
            self.body(x.body, dict(env), o)
            out.append(Unknown('filtered')) if any(type(p) is not str for p in o) or x.filter.name not in ('trim', 'safe', 'indent') else out.extend(o)
        elif isinstance(x, n.Assign):
            try:
                v = self.ex(x.node, env)
            except Stop:
                v = Unknown()
            self.bind(x.target, v, env)
        elif isinstance(x, n.AssignBlock):
            o = []
            self.body(x.body, dict(env), o)
            self.bind(x.target, Safe(o), env)
        elif isinstance(x, n.With):
            e = dict(env)
            for k, v in zip(x.targets, x.values):
                try:
                    w = self.ex(v, env)
                except Stop:
                    w = Unknown()
                self.bind(k, w, e)
            self.body(x.body, e, out)
        elif isinstance(x, (n.Block, n.Scope, n.ScopedEvalContextModifier)):
            self.body(x.body, dict(env), out)
        elif isinstance(x, n.Include):
            if isinstance(x.template, n.Const) and isinstance(x.template.value, str):
                old, self.t = self.t, x.template.value
                self.body(self.L.tree(self.t).body, dict(env), out)
                self.t = old
            else:
                out.append(Unknown('include'))
        elif isinstance(x, (n.Import, n.FromImport)):
            if not (isinstance(x.template, n.Const) and isinstance(x.template.value, str)):
                return
            old, self.t = self.t, x.template.value
            e, o = dict(env) if x.with_context else {}, []
            self.body(self.L.tree(self.t).body, e, o)
            self.t = old
            if isinstance(x, n.Import):
                env[x.target] = Own(e)
            else:
                for k in x.names:
                    a, b = k if isinstance(k, tuple) else (k, k)
                    env[b] = e.get(a, Missing(a))
        elif isinstance(x, n.ExprStmt):
            try:
                self.ex(x.node, env)
            except Stop:
                pass
        elif isinstance(x, n.EvalContextModifier):
            pass
        elif isinstance(x, n.Extends):
            out.append(Unknown('extends'))

    def unsure(self, nodes, env):
        old, self.sure = self.sure, False
        try:
            self.body(nodes, dict(env), [])
        finally:
            self.sure = old

    def bind(self, target, v, env):
        n = self.n
        if isinstance(target, n.Name):
            env[target.name] = v
        elif isinstance(target, (n.Tuple, n.List)):
            vs = None if isinstance(v, (Unknown, Missing)) else self.items(target, v)
            for i, y in enumerate(target.items):
                self.bind(y, vs[i] if vs is not None and i < len(vs) else Unknown(), env)

    # ---- values
    def simp(self, v):
        return self.st.simp(v) if isinstance(v, V) else v

    def within(self, f):
        """value of f in a copy of the state: ('ok', value) / ('raise', None) / ('?', None)"""
        o = self.S.run(f, self.st.copy(), steps=400000, listen=self.listen)
        if o.dead:
            return ('raise' if o.raises else '?'), None
        self.st = o.st
        return 'ok', self.st.simp(o.value)

    def items(self, x, v):
        v = self.simp(v)
        if isinstance(v, Missing):
            return []
        if isinstance(v, Own):
            return list(v.v)
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v, Const):
            self.fail(x, '%r is not something to go through' % (v.v,))
        if isinstance(v, V):
            r = seq(self.S, self.st, v)
            if r is not None:
                return r
            if type(v) is Ref and m_coll.kind_of(self.I, self.st, v) == 'dict':
                es = list(self.st.get(v.oid).data.values())
                return None if any(e.g for e in es) else [e.k for e in es]
            if type(v) is Ref and self.st.get(v.oid).kind == 'inst':
                k, r = self.within(lambda I, s: I.call(s, Bi('list'), [v], {}, None))
                if k == 'raise':
                    self.fail(x, 'a %s is not something to go through' % self.kind(v))
                if k == 'ok':
                    return seq(self.S, self.st, r)
        return None

    def kind(self, v):
        if type(v) is Ref:
            o = self.st.get(v.oid)
            c = o.cls
            if type(c) is Ref:
                return str(getattr(self.S.base.get(c.oid).data, 'name', None) or getattr(self.S.base.get(c.oid).data, 'qual', 'object')).split(':')[-1]
            return o.kind
        return type(v.v).__name__ if type(v) is Const else 'value'

    def truth(self, v):
        v = self.simp(v)
        if isinstance(v, Missing):
            return False
        if isinstance(v, Safe):
            return bool(v.pieces)
        if isinstance(v, Own):
            return bool(v.v)
        if isinstance(v, V):
            k, t = self.within(lambda I, s: I.truth(s, v))
            if k == 'ok' and type(t) is Const:
                return bool(t.v)
        return None

    def text(self, x, v):
        v = self.simp(v)
        if isinstance(v, Safe):
            return list(v.pieces)
        if isinstance(v, Missing):
            self.note(x, 'missing')
            return ['']
        if isinstance(v, Const):
            self.note(x, 'number' if isinstance(v.v, (int, float)) else 'text')
            return [str(v.v)]
        if isinstance(v, V):
            k, r = self.within(lambda I, s: I.call(s, Bi('str'), [v], {}, None))
            self.note(x, 'number' if type(v) is Term and v.ty in ('int', 'float', 'bool') else 'text')
            if k == 'raise':
                self.fail_soft(x, 'text of a %s cannot be made' % self.kind(v))
            if k == 'ok' and type(r) is Const:
                return [r.v]
            return [Unknown(r)]
        self.note(x, 'text')
        return [Unknown()]

    def fail_soft(self, x, what):
        try:
            self.fail(x, what)
        except Stop:
            pass

    def note(self, x, k):
        self.kinds.setdefault(id(x), set()).add(k)

    def ex(self, x, env, caller=None):
        v = self.ex_(x, env, caller)
        v = self.simp(v)
        if isinstance(v, V):
            self.note(x, 'number' if type(v) is Const and isinstance(v.v, (int, float)) or type(v) is Term and v.ty in ('int', 'float', 'bool') else 'text')
        return v

    def ex_(self, x, env, caller):
        n = self.n
        if isinstance(x, n.Name):
            if x.name in env:
                return env[x.name]
            if x.name in ('range', 'dict', 'lipsum', 'cycler', 'joiner', 'namespace'):
                return Unknown(x.name)
            self.read(x, x.name, False)
            return Missing(x.name)
        if isinstance(x, n.Const):
            return Const(x.value) if isinstance(x.value, (int, float, str, bool, type(None))) else Unknown()
        if isinstance(x, n.TemplateData):
            return Safe([x.data])
        if isinstance(x, (n.Tuple, n.List)):
            return Own([self.ex(y, env) for y in x.items])
        if isinstance(x, n.Getattr):
            return self.member(x, self.ex(x.node, env), x.attr, True)
        if isinstance(x, n.Getitem):
            v = self.ex(x.node, env)
            if isinstance(x.arg, n.Slice):
                if isinstance(v, Missing):
                    self.fail(x, '%s is not provided, and taken apart' % v.what)
                return Unknown()
            k = self.ex(x.arg, env)
            if type(k) is Const and isinstance(k.v, (int, str)):
                return self.member(x, v, k.v, False)
            return Unknown()
        if isinstance(x, n.Call):
            return self.call(x, env, caller)
        if isinstance(x, n.Filter):
            return self.filter(x, env)
        if isinstance(x, n.Test):
            v = self.ex(x.node, env)
            if x.name == 'defined':
                return Unknown() if isinstance(v, Unknown) else Const(not isinstance(v, Missing))
            if x.name == 'undefined':
                return Unknown() if isinstance(v, Unknown) else Const(isinstance(v, Missing))
            if x.name == 'none' and type(v) is Const:
                return Const(v.v is None)
            return Unknown()
        if isinstance(x, n.Not):
            b = self.truth(self.ex(x.node, env))
            return Unknown() if b is None else Const(not b)
        if isinstance(x, (n.And, n.Or)):
            a = self.ex(x.left, env)
            b = self.truth(a)
            if b is None:
                return Unknown()
            return self.ex(x.right, env) if b == isinstance(x, n.And) else a
        if isinstance(x, n.CondExpr):
            b = self.truth(self.ex(x.test, env))
            if b is None:
                return Unknown()
            return self.ex(x.expr1, env) if b else (self.ex(x.expr2, env) if x.expr2 is not None else Missing('else'))
        if isinstance(x, n.Concat):
            out = []
            for y in x.nodes:
                out += self.text(y, self.ex(y, env))
            return Const(''.join(out)) if all(type(p) is str for p in out) else Unknown()
        if isinstance(x, n.BinExpr):
            a, b = self.ex(x.left, env), self.ex(x.right, env)
            if isinstance(a, Missing) or isinstance(b, Missing):
                self.fail(x, '%s is not provided, and calculated with' % (a if isinstance(a, Missing) else b).what)
            if isinstance(a, V) and isinstance(b, V):
                if type(a) is Const and type(b) is Const:
                    try:
                        return Const(eval_op(x.operator, a.v, b.v))
                    except TypeError as e:
                        self.fail(x, str(e))
                    except Exception:
                        return Unknown()
            return Unknown()
        if isinstance(x, n.UnaryExpr):
            v = self.ex(x.node, env)
            if type(v) is Const and isinstance(v.v, (int, float)):
                return Const(-v.v if x.operator == '-' else v.v)
            return Unknown()
        if isinstance(x, n.Compare) and len(x.ops) == 1:
            a, b = self.ex(x.expr, env), self.ex(x.ops[0].expr, env)
            if type(a) is Const and type(b) is Const:
                try:
                    return Const({'eq': lambda: a.v == b.v, 'ne': lambda: a.v != b.v, 'lt': lambda: a.v < b.v, 'gt': lambda: a.v > b.v,
                                  'lteq': lambda: a.v <= b.v, 'gteq': lambda: a.v >= b.v, 'in': lambda: a.v in b.v, 'notin': lambda: a.v not in b.v}[x.ops[0].op]())
                except Exception:
                    return Unknown()
            return Unknown()
        for y in x.iter_child_nodes():
            if isinstance(y, n.Expr):
                self.ex(y, env)
        return Unknown()

    def read(self, x, what, found):
        r = self.reads.setdefault((self.t, x.lineno, what), set())
        r.add(found)

    def member(self, x, v, key, by_attr):
        if isinstance(v, Missing):
            self.fail(x, '%s is not provided, and %r of it is needed' % (v.what, key))
        if isinstance(v, LoopVar):
            i, m = v.i, v.n
            d = {'index': i + 1, 'index0': i, 'first': i == 0, 'last': i == m - 1, 'length': m, 'revindex': m - i, 'revindex0': m - i - 1}
            return Const(d[key]) if key in d else Unknown()
        if isinstance(v, Own):
            if isinstance(v.v, dict):
                return v.v.get(key, Missing(key))
            if isinstance(key, int):
                return v.v[key] if -len(v.v) <= key < len(v.v) else Missing('item %d' % key)
            return Unknown()
        if not isinstance(v, V):
            return Unknown()
        if type(v) is Ref:
            o = self.st.get(v.oid)
            if isinstance(key, str) and o.kind == 'inst' and key in o.attrs and isinstance(o.attrs[key], V):
                self.read(x, key, True)
                return o.attrs[key]
            k = m_coll.kind_of(self.I, self.st, v)
            if isinstance(key, int) and k in ('list',):
                r = seq(self.S, self.st, v)
                if r is None:
                    return Unknown()
                if -len(r) <= key < len(r):
                    return r[key]
                return Missing('item %d of an empty collection' % key if not r else 'item %d' % key)
            if k == 'dict':
                for e in self.st.get(v.oid).data.values():
                    if self.st.simp(e.k) == Const(key):
                        self.read(x, key, True)
                        return e.v if not e.g else Unknown()
        if type(v) is Tup and isinstance(key, int):
            return v.items[key] if -len(v.items) <= key < len(v.items) else Missing('item %d' % key)
        if isinstance(key, str):
            kind, r = self.within(lambda I, s: I.get_attr(s, v, key, None))
            if kind == 'ok':
                self.read(x, key, True)
                return r
            if kind == 'raise':
                self.read(x, key, False)
                return Missing('%s of a %s' % (key, self.kind(v)))
        return Unknown()

    def call(self, x, env, caller):
        n = self.n
        f = self.ex(x.node, env)
        args = [self.ex(y, env) for y in x.args]
        kw = {k.key: self.ex(k.value, env) for k in x.kwargs}
        if isinstance(f, Missing):
            self.fail(x, '%s is not provided, and called' % f.what)
        if isinstance(f, Macro):
            m = f.node
            e = dict(f.env)
            e.update(self.values)
            for k, a in list(f.env.items()):
                if isinstance(a, Macro):
                    e[k] = a
            for i, a in enumerate(m.args):
                if i < len(args):
                    e[a.name] = args[i]
                elif a.name in kw:
                    e[a.name] = kw[a.name]
                else:
                    d = i - (len(m.args) - len(m.defaults))
                    e[a.name] = self.ex(m.defaults[d], env) if d >= 0 else Missing(a.name)
            e['caller'] = caller if caller is not None else Missing('caller')
            out = []
            old, self.t = self.t, f.tmpl
            self.depth = getattr(self, 'depth', 0) + 1
            if self.depth < 30:
                self.body(m.body, e, out)
            self.depth -= 1
            self.t = old
            return Safe(out)
        if isinstance(f, Safe):
            return f
        if isinstance(f, Unknown) and f.why == 'range' and all(type(a) is Const and isinstance(a.v, int) for a in args):
            return Own([Const(i) for i in range(*[a.v for a in args])])
        if isinstance(f, V) and all(isinstance(a, V) for a in args) and all(isinstance(a, V) for a in kw.values()):
            k, r = self.within(lambda I, s: I.call(s, f, args, kw, None))
            if k == 'ok':
                return r
            if k == 'raise':
                self.fail(x, 'the call fails')
        return Unknown()

    def filter(self, x, env):
        v = self.ex(x.node, env) if x.node is not None else Unknown()
        args = [self.ex(y, env) for y in x.args]
        kw = {k.key: self.ex(k.value, env) for k in x.kwargs}
        f = self.filters.get(x.name)
        if f is not None:
            if isinstance(v, V) and all(isinstance(a, V) for a in args + list(kw.values())):
                key = (x.name, v, tuple(args), tuple(sorted(kw.items()))) if type(v) is not Ref and not any(type(a) is Ref for a in args) else None
                if key in self.fcache:
                    return self.fcache[key]
                k, r = self.within(lambda I, s: I.call(s, f, [v] + args, kw, None))
                if k == 'raise':
                    self.fail(x, 'filter %s fails' % x.name)
                r = r if k == 'ok' else Unknown()
                if key is not None:
                    self.fcache[key] = r
                return r
            return Unknown()
        if x.name not in self.L.builtin_filters():
            self.fail(x, 'there is no filter %r' % x.name)
        if x.name in ('safe', 'e', 'escape', 'forceescape'):
            return v
        if x.name in ('default', 'd'):
            return v if not isinstance(v, (Missing, Unknown)) else (args[0] if args and isinstance(v, Missing) else Const('') if isinstance(v, Missing) else v)
        if x.name in ('length', 'count'):
            r = self.items(x, v) if not isinstance(v, Unknown) else None
            return Const(len(r)) if r is not None else Unknown()
        if x.name in ('first', 'last'):
            r = self.items(x, v) if not isinstance(v, Unknown) else None
            return Unknown() if r is None else (r[0 if x.name == 'first' else -1] if r else Missing('%s of an empty collection' % x.name))
        if x.name in ('list', 'reverse'):
            r = self.items(x, v) if not isinstance(v, Unknown) else None
            return Unknown() if r is None else Own(r if x.name == 'list' else r[::-1])
        if x.name == 'string' and isinstance(v, Const):
            return Const(str(v.v))
        if x.name in ('trim', 'lower', 'upper') and isinstance(v, Const) and isinstance(v.v, str) and not args:
            return Const({'trim': str.strip, 'lower': str.lower, 'upper': str.upper}[x.name](v.v))
        if x.name == 'join' and not isinstance(v, Unknown):
            r = self.items(x, v)
            if r is not None:
                ps = []
                sep = self.text(x, args[0]) if args else ['']
                for i, y in enumerate(r):
                    ps += (sep if i else []) + self.text(x, y)
                return Const(''.join(ps)) if all(type(p) is str for p in ps) else Unknown()
        return Unknown()


def eval_op(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        return a ** b
    raise ValueError(op)
