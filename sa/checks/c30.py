"""C30: every text rendering is well formed."""
import ast, os, string
from ..world import *
from ..recs import *
from . import c11, c32

RULE = ('Template arity over the syntax tree: each % template and each format template of the package, logging included, gets the values it names (count, '
        'names, kind of argument). Abstract interpretation of the renderings: every object of a class with a rendering of its own that exists after the '
        'interpretation of the records of every kind (all events, games, players, calls, commands and states, 3 and 4 players), and hands, tiles, patterns '
        'and game types of every kind, is rendered both ways; no rendering may raise on a reachable path and each has to give a text.')

ASSUMPTIONS = ['the XML library renders an element as bytes on request', 'names and texts of a record are texts']

LOGS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'trace', 'success'}


def run(rep):
    S = Session(rep, steps=8000000)
    with rep.group('templates'):
        templates(S, rep)
    S.g(*c11.TC)
    todo = pick(list(c11.scenarios()))
    rep.parallel([('r',) + x for x in todo] + [('o', n, f) for n, f in makers(S)] + [('w',) + x for x in wholes()],
                 lambda x: {'r': one, 'o': lone, 'w': whole}[x[0]](rep, S, *x[1:]), limit=200)
    met = {k.split()[-1] for k in rep.counts if k.startswith('renderings of ')}
    for n in rendered(S):
        if n not in met:
            rep.count('classes with a rendering not met: ' + n)


def rendered(S):
    """names of classes that define a rendering"""
    out = set()
    for oid, o in S.base.base.items() if S.base.base else heap(S.base).items():
        if o.kind == 'class' and {'__str__', '__repr__', '__format__'} & set(o.attrs or {}):
            out.add(o.data.name)
    return sorted(out)


def pick(xs):
    """two seats of each kind of scenario suffice: renderings do not depend on the seat"""
    out = []
    for n, b in xs:
        if n.startswith('discard ') or ('game type' in n and not n.startswith('game type 169')):
            continue
        if ' win of ' in n and not ('win of 1 from 1' in n or 'win of 2 from 0' in n):
            continue
        if 'player 1 ' in n or 'player 3 ' in n or 'dealer 1' in n or 'dealer 3' in n:
            continue
        out.append((n, b))
    return out


# ---- templates

def placeholders(t):
    """(number of values taken, names, ok) of a % template"""
    i, n, names = 0, 0, set()
    while i < len(t):
        if t[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(t) and t[i] == '(':
            j = t.find(')', i)
            if j < 0:
                return n, names, False
            names.add(t[i + 1:j])
            i = j + 1
            named = True
        else:
            named = False
        while i < len(t) and t[i] in '#0- +':
            i += 1
        for _ in range(2):
            if i < len(t) and t[i] == '*':
                n += 1
                i += 1
            while i < len(t) and t[i].isdigit():
                i += 1
            if _ == 0:
                if i < len(t) and t[i] == '.':
                    i += 1
                else:
                    break
        while i < len(t) and t[i] in 'hlL':
            i += 1
        if i >= len(t):
            return n, names, False
        if t[i] == '%':
            i += 1
            continue
        if t[i] not in 'diouxXeEfFgGcrsa':
            return n, names, False
        if not named:
            n += 1
        i += 1
    return n, names, True


def fields(t):
    """(positional count, names, ok) of a format template"""
    names, top, auto = set(), 0, 0

    def go(t):
        nonlocal top, auto
        for _, f, spec, _c in string.Formatter().parse(t):
            if f is None:
                continue
            x = f
            for c in '.[':
                x = x.split(c)[0]
            if x == '':
                auto += 1
            elif x.isdigit():
                top = max(top, int(x) + 1)
            else:
                names.add(x)
            if spec:
                go(spec)
    try:
        go(t)
    except ValueError:
        return 0, names, False
    return max(top, auto), names, True


class Consts(ast.NodeVisitor):
    """module level texts by name"""

    def __init__(self, tree):
        self.d, seen = {}, {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            seen[x.id] = seen.get(x.id, 0) + 1
        for n in tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant) \
                    and isinstance(n.value.value, str) and seen.get(n.targets[0].id) == 1:
                self.d[n.targets[0].id] = n.value.value

    def text(self, n):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return n.value
        if isinstance(n, ast.Name):
            return self.d.get(n.id)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = self.text(n.left), self.text(n.right)
            return a + b if a is not None and b is not None else None
        return None


def templates(S, rep):
    for m in sorted(S.I.modules):
        f = S.I.files.get(m)
        if not f or not m.startswith(S.I.package):
            continue
        with open(f, encoding='utf-8') as fh:
            tree = ast.parse(fh.read())
        c = Consts(tree)
        path = os.path.relpath(f, S.I.root)
        for n in ast.walk(tree):
            at = '%s:%d' % (path, getattr(n, 'lineno', 0))
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                t = c.text(n.left)
                if t is not None:
                    rep.count('templates')
                    r, why = mod_ok(t, n.right)
                    rep.decide(r if r is not None else True, 'template %r' % t, at, why)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                t = c.text(n.func.value)
                if n.func.attr == 'format' and t is not None:
                    rep.count('templates')
                    r, why = format_ok(t, n.args, n.keywords)
                    rep.decide(r if r is not None else True, 'template %r' % t, at, why)
                elif n.func.attr in LOGS and n.args and isinstance(n.func.value, ast.Name) and n.func.value.id in ('logger', 'logging', 'log'):
                    t = c.text(n.args[0])
                    if t is None:
                        continue
                    rep.count('templates')
                    rest, kws = n.args[1:], [k for k in n.keywords if k.arg not in ('exc_info', 'stack_info', 'stacklevel', 'extra')]
                    if not rest and not kws:
                        continue
                    style = logger_style(tree, n.func.value.id)
                    if style == '{':
                        r, why = format_ok(t, rest, kws)
                    elif style == '%':
                        r, why = mod_ok(t, ast.Tuple(elts=rest, ctx=ast.Load()))
                    else:
                        continue
                    rep.decide(r if r is not None else True, 'template %r' % t, at, why)


def logger_style(tree, name):
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and n.module == 'loguru' and any((a.asname or a.name) == name for a in n.names):
            return '{'
        if isinstance(n, ast.Import) and any(a.name == 'logging' and (a.asname or a.name) == name for a in n.names):
            return '%'
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and isinstance(n.value, ast.Call):
            q = ast.unparse(n.value.func)
            if q in ('logging.getLogger', 'getLogger'):
                return '%'
    return None


def mod_ok(t, right):
    n, names, ok = placeholders(t)
    if not ok:
        return False, 'the template is not complete'
    if names:
        if isinstance(right, ast.Dict) and all(isinstance(k, ast.Constant) for k in right.keys):
            gone = names - {k.value for k in right.keys}
            return not gone, 'no value for %s' % sorted(gone)
        if isinstance(right, (ast.Tuple, ast.Constant)):
            return False, 'it names values, they come unnamed'
        return None, ''
    if isinstance(right, ast.Tuple):
        if any(isinstance(e, ast.Starred) for e in right.elts):
            return None, ''
        return len(right.elts) == n, 'it takes %d values and gets %d' % (n, len(right.elts))
    if isinstance(right, ast.Constant) or isinstance(right, (ast.JoinedStr, ast.Compare)):
        return n == 1, 'it takes %d values and gets 1' % n
    if isinstance(right, (ast.List, ast.ListComp, ast.GeneratorExp, ast.Set, ast.SetComp)):
        return n == 1, 'it takes %d values and gets 1' % n
    return None, ''


def format_ok(t, args, keywords):
    n, names, ok = fields(t)
    if not ok:
        return False, 'the template is not complete'
    if not any(isinstance(a, ast.Starred) for a in args) and len(args) < n:
        return False, 'it takes %d values and gets %d' % (n, len(args))
    if not any(k.arg is None for k in keywords):
        gone = names - {k.arg for k in keywords}
        if gone:
            return False, 'no value for %s' % sorted(gone)
    return True, ''


# ---- objects

def heap(st):
    out = {}
    for l in st.layers:
        out.update(l)
    out.update(st.top)
    return out


def own_rendering(S, st, cls):
    for nm in ('__str__', '__repr__', '__format__'):
        v = S.I.class_attr(st, cls, nm)
        if type(v) is Ref:
            return True
    return False


def reachable(st, roots):
    """ids of what a holder of the roots can get at"""
    seen, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        t = type(v)
        if t is Ref:
            if v.oid in seen or not st.has(v.oid):
                continue
            seen.add(v.oid)
            o = st.get(v.oid)
            if o.kind in ('class', 'func', 'module'):
                continue
            todo += list((o.attrs or {}).values())
            d = o.data
            if isinstance(d, dict):
                d = list(d.values())
            if isinstance(d, (list, tuple)):
                for e in d:
                    if isinstance(e, V):
                        todo.append(e)
                    else:
                        todo += [x for x in (getattr(e, 'k', None), getattr(e, 'v', None)) if isinstance(x, V)]
        elif t is Tup:
            todo += v.items
        elif t is Ite:
            todo += [v.a, v.b]
    return seen


def objects(S, st, cap, roots):
    by = {}
    near = reachable(st, roots)
    for oid, o in sorted(heap(st).items()):
        if oid in near and o.kind == 'inst' and type(o.cls) is Ref and own_rendering(S, st, o.cls):
            by.setdefault(o.cls.oid, []).append((o.cls, Ref(oid)))
    out = []
    for k, xs in sorted(by.items()):
        if len(xs) > cap:
            step = len(xs) / cap
            xs = [xs[int(i * step)] for i in range(cap)]
        out += xs
    return out


def render(S, rep, what, st, cls, obj, seen=None):
    ci = st.get(cls.oid).data
    at = S.loc(ci.node)
    for how in ('str', 'repr'):
        n = '%s: %s of %s' % (what, how, ci.name)
        o = S.run(lambda I, s: I.call(s, Bi(how), [obj], {}, None), st.copy(), intercepts=STUBS)
        rep.count('renderings')
        rep.count('renderings of ' + ci.name)
        verdict(S, rep, n, at, o)


def verdict(S, rep, n, at, o):
    raised, sure = [], []
    for x, s in S.exc(o):
        f = feasible(tuple(s.guards))
        if f is not False:
            raised.append(str(x))
        if f is True and s.guards:
            sure.append(str(x))
    if o.dead:
        rep.decide(False if raised else None, n, at, 'it always raises %s' % sorted(set(raised)))
        return
    bad = [x for x in sure if x.startswith(('TypeError', 'IndexError', 'KeyError', 'AttributeError', 'ValueError', 'NameError', 'UnboundLocalError'))]
    if bad:
        rep.decide(False, n, at, 'it may raise %s' % sorted(set(bad))[:3])
        return
    ts = {type(x.v).__name__ if type(x) is Const else getattr(x, 'ty', None) for _, x in alts(o.st, o.value)}
    rep.decide(True if ts == {'str'} else False if None not in ts else None, n, at, 'it gives %s' % sorted(map(str, ts)))


def one(rep, S, name, build):
    I = S.I
    st = S.state()
    evs = build(I, st)
    box = {}

    def f(I, s):
        r = box['r'] = c11.record(S, s, [e for e, _ in evs])
        c = box['c'] = I.call(s, S.g(*c11.TC), [r], {}, None)
        x = I.call(s, S.g('mahjong.record.universe.executor', 'GameExecutor'), [], {}, None)
        g = I.call_method(s, x, 'execute', [c], {}, None)
        box['x'] = I.call(s, Bi('list'), [g], {}, None)
        return r
    o = S.run(f, st, intercepts=STUBS)
    rep.count('scenarios')
    if o.dead:
        rep.undecided(name, S.loc_of(S.g(*c11.TC)), 'raises %s' % [n for n, _ in S.exc(o)])
        return
    for cls, obj in objects(S, o.st, 12, [x for x in box.values() if isinstance(x, V)]):
        render(S, rep, name, o.st, cls, obj)


def lone(rep, S, name, f):
    o = S.run(f, S.state(), intercepts=STUBS)
    if o.dead:
        rep.undecided(name, '', 'raises %s' % [n for n, _ in S.exc(o)])
        return
    v = o.value
    for g, x in alts(o.st, v):
        if type(x) is Ref and o.st.get(x.oid).kind == 'inst':
            render(S, rep, name, o.st, o.st.get(x.oid).cls, x)


KINDS = ('win by draw', 'win by discard', 'two wins', 'three wins', 'draw', 'draw yao9', 'draw without scores')


def wholes():
    for players in (4, 3):
        for k in KINDS:
            for last in (True, False):
                if last and k == 'three wins':
                    continue
                yield '%s in a record of %d players%s' % (k, players, ', last' if last else ''), players, [k] if last else [k, 'win by draw']
        for d in sorted(c11.DRAWN):
            yield 'draw %s in a record of %d players' % (d, players), players, [d]


def whole(rep, S, name, players, kinds):
    def build(I, s):
        els = c32.head(I, s, players)
        for k, kind in enumerate(kinds):
            last = k == len(kinds) - 1
            els += [init(I, s, k % players, players, 'g%d' % k), draw(I, s, k, leaf('in%d' % k, 0, 135)), discard(I, s, k, leaf('out%d' % k, 0, 135))]
            els += c32.ends(I, s, kind, players, 'g%d' % k, last) if kind in KINDS else [ryuukyoku(I, s, players, 'g%d' % k, kind, last)]
        return els
    o, box = c32.make(S, build, lambda I, s, r: r, players)
    rep.count('scenarios')
    if o.dead:
        rep.undecided(name, '', 'raises %s' % [n for n, _ in S.exc(o)])
        return
    for cls, obj in objects(S, o.st, 12, [o.value]):
        render(S, rep, name, o.st, cls, obj)


def makers(S):
    """objects that no record makes"""
    out = []
    TS, TD = 'mahjong.container.set', 'mahjong.tile.definition'

    def tiles(texts):
        def f(I, s):
            return I.call(s, S.g('mahjong.container.utils', 'tile_set_from_string'), [Const(texts)], {}, None)
        return f
    for t in ('', '1m', '123m067p9s1234567z', '0m0p0s', '1111m'):
        out.append(('hand %r' % t, tiles(t)))
    W = 'mahjong.container.pattern.win'
    for c in ('NormalTypeWin', 'UniquePairs'):
        out.append((c, lambda I, s, c=c: I.call(s, S.g(W, c), [], {}, None)))
    out.append(('pattern of 2 melds', lambda I, s: I.call(s, S.g(W, 'NormalTypeWin'), [Const(2)], {}, None)))
    out.append(('pattern of no pairs', lambda I, s: I.call(s, S.g(W, 'UniquePairs'), [Const(0)], {}, None)))
    for n, col in ((1, 'm'), (9, 's'), (7, 'z')):
        out.append(('tile %d%s' % (n, col), lambda I, s, n=n, col=col: I.call(s, S.g(TD, 'Tile'), [Const(n), Const(col)], {}, None)))
    M = 'mahjong.record.utils.value.meld'
    for n, c in sorted(calls().items()):
        out.append(('meld ' + n, lambda I, s, c=c: I.call(s, S.g(M, 'meld_from'), [call(I, s, 2, c.code)], {}, None)))
    G = 'mahjong.record.utils.value.gametype'
    for code in (0, 1, 2, 4, 8, 9, 16, 17, 32, 64, 128, 160, 169, 185, 193, 225, 255, 512, 657, 1024, 2047):
        out.append(('game type %d' % code, lambda I, s, code=code: I.call(s, S.g(G, 'GameType'), [Const(str(code))], {}, None)))
    out.append(('any game type', lambda I, s: I.call(s, S.g(G, 'GameType'), [text(leaf('gametype', 0, 2047))], {}, None)))
    return out
