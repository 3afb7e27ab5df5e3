"""Programs and other entry points run abstractly, and the external calls they make."""
import ast, urllib.parse
from .track import *
from .models import XML

CHECK = 'mahjong.tenhou_record_check'
EXTRACT = 'mahjong.universe_paifu_convert'
CHECKER = 'mahjong.record.checker'
READER = 'mahjong.record.reader'
LINK = 'http://tenhou.net/0/?log=2019012600gm-0089-0000-100908f0&tw=0'
LOG_ID = '2019012600gm-0089-0000-100908f0'


class Calls:
    """listener collecting external calls"""

    def __init__(self):
        self.all, self.sets = [], []

    def __call__(self, k, d):
        if k == 'ext_call':
            self.all.append(d)
        elif k in ('setattr_ext', 'setitem_ext'):
            self.sets.append((k, d))


class Program:
    def __init__(self, name, out, calls, at):
        self.name, self.out, self.calls, self.at = name, out, calls, at


def small_record(I, s, discards=False):
    els = [shuffle(I, s), go(I, s), un(I, s), taikyoku(I, s, 0)]
    for k, tag in enumerate('ab'):
        els.append(init(I, s, k, tag=tag))
        if discards:
            els += [draw(I, s, k, 40 + k), discard(I, s, k, 40 + k)]
        els.append(agari(I, s, 1, 0, tag='x') if tag == 'a' else ryuukyoku(I, s, tag='y', last=True))
    return els


def plain_record(I, s):
    """names are the only unknown texts"""
    from .checks.c32 import constant_init, constant_agari
    a = {'n%d' % i: sleaf('name%d' % i, 'text') for i in range(4)}
    a.update(dan='10,3,20,0', rate='1500.50,1601.25,2222.75,1410.10', sx='M,F,M,F')
    return [elem(I, s, 'GO', type='169', lobby='0'), elem(I, s, 'UN', **a), taikyoku(I, s, 0), constant_init(I, s, 0, 4, (0, 0, 0, 0, 4, 77)),
            draw(I, s, 0, 40), discard(I, s, 0, 40), constant_agari(I, s, 1, 0, 7700, '411,51.1,302,-20.2,198,10.2,89,-41.1')]


def const_text(I, s, v):
    v = s.simp(v) if isinstance(v, V) else v
    return v.v if type(v) is Const and isinstance(v.v, str) else None


def f_urlparse(I, s, a, k, node):
    t = const_text(I, s, a[0]) if a else None
    if t is None or len(a) > 1 or k:
        return NotImplemented
    u = urllib.parse.urlparse(t)
    fields = {n: Const(getattr(u, n)) for n in ('scheme', 'netloc', 'path', 'params', 'query', 'fragment', 'hostname')}
    return s.new(Obj('inst', Bi('object'), fields))


def f_urlsplit(I, s, a, k, node):
    return f_urlparse(I, s, a, k, node)


def f_parse_qs(I, s, a, k, node):
    t = const_text(I, s, a[0]) if a else None
    if t is None or k:
        return NotImplemented
    return I.new_dict(s, [(Const(n), I.new_list(s, [Const(x) for x in v])) for n, v in urllib.parse.parse_qs(t).items()])


def f_parse_qsl(I, s, a, k, node):
    t = const_text(I, s, a[0]) if a else None
    if t is None or k:
        return NotImplemented
    return I.new_list(s, [Tup((Const(n), Const(v))) for n, v in urllib.parse.parse_qsl(t)])


def hooks(inputs=(), discards=False, record=None, iterate=True):
    todo = list(inputs)

    def typed(I, s, a, k, node):
        v = todo.pop(0) if todo else Const('')
        return v if isinstance(v, V) else Const(v)

    def root(I, s, a, k, node):
        return I.new_list(s, (record or small_record)(I, s) if record else small_record(I, s, discards))

    def tree(I, s, a, k, node):
        return Term('tree', ())

    def tree_iter(I, s, a, k, node):
        if not (type(a[0]) is Term and a[0].op == 'tree'):
            return NotImplemented
        return I.call(s, Bi('iter'), [I.new_list(s, [root(I, s, [], {}, node)])], {}, node)

    def getroot(I, s, a, k, node):
        return root(I, s, a, k, node) if type(a[0]) is Term and a[0].op == 'tree' else NotImplemented
    h = dict(STUBS)
    h.update({'ext:input': typed, 'ext:xml.etree.ElementTree.fromstring': root, 'ext:xml.etree.ElementTree.XML': root,
              'ext:xml.etree.ElementTree.parse': tree, 'ext:.iter': tree_iter, 'ext:.getroot': getroot,
              'ext:urllib.parse.urlparse': f_urlparse, 'ext:urllib.parse.urlsplit': f_urlsplit, 'ext:urllib.parse.parse_qs': f_parse_qs,
              'ext:urllib.parse.parse_qsl': f_parse_qsl})
    return h


def run_program(S, name, f, inputs=(), **kw):
    c = Calls()
    if 'paifu extract' in name or 'commands' in name or 'dataframe' in name:
        kw['record'] = plain_record
    o = S.run(f, S.state(), listen=c, intercepts=hooks(inputs, **kw), steps=600000)
    return Program(name, o, c, '')


def link():
    return sleaf('link', 'text')


TIMEOUT = leaf('time_limit', 1, 600)


def program(S, mod, inputs):
    def f(I, s):
        return I.call(s, S.g(mod, 'main'), [], {}, None)
    return f


def entries(S, const=False):
    """(name, function, inputs) of every way into the package that downloads"""
    u = Const(LINK) if const else link()
    out = []
    for choice in ('', '1', '4', '7'):
        out.append(('record check program, choice %r' % choice, program(S, CHECK, 0), [u, choice]))
    out.append(('paifu extract program', program(S, EXTRACT, 0), [u]))

    def checker(i, gen, limit=True):
        def f(I, s):
            c = I.call(s, S.g(CHECKER, 'TenhouChecker'), [], {}, None)
            kw = {'player_index': Const(i), 'generate_filename': Const(gen)}
            if limit:
                kw['timeout'] = TIMEOUT
            return I.call_method(s, c, 'parse', [u], kw, None)
        return f
    for i in (0, 3):
        for gen in (False, True):
            out.append(('TenhouChecker.parse of player %d%s' % (i, ' with file name' if gen else ''), checker(i, gen), []))
    out.append(('TenhouChecker.parse without time limit given', checker(0, True, False), []))

    def fn(mod, name, kw, pos=False):
        def f(I, s):
            return I.call(s, S.g(mod, name), [u] + ([TIMEOUT] if pos else []), kw, None)
        return f
    out.append(('from_url', fn(READER, 'from_url', {'timeout': TIMEOUT}), []))
    out.append(('from_url with the time limit second', fn(READER, 'from_url', {}, True), []))
    out.append(('from_url without time limit given', fn(READER, 'from_url', {}), []))
    out.append(('fetch_record_content', fn(READER, 'fetch_record_content', {'timeout': TIMEOUT}), []))
    out.append(('fetch_record_content without time limit given', fn(READER, 'fetch_record_content', {}), []))
    if S.has('mahjong.record', 'tenhou_from_url'):
        out.append(('mahjong.record.tenhou_from_url', fn('mahjong.record', 'tenhou_from_url', {'timeout': TIMEOUT}), []))
    return out


def offline(S):
    """ways into the package that stay on this machine"""
    path = sleaf('path', 'text')

    def from_file(then):
        def f(I, s):
            r = I.call(s, S.g(READER, 'from_file'), [path], {}, None)
            return then(I, s, r)
        return f
    out = [('from_file', from_file(lambda I, s, r: r), []),
           ('from_file and str', from_file(lambda I, s, r: I.call(s, Bi('str'), [r], {}, None)), []),
           ('from_file and to_paifu', from_file(lambda I, s, r: I.call_method(s, r, 'to_paifu', [], {}, None)), []),
           ('from_file and to_commands', from_file(lambda I, s, r: I.call(s, S.g('mahjong.record.universe.tenhou', 'to_commands'), [r], {}, None)), []),
           ('from_file and report', from_file(lambda I, s, r: I.call_method(
               s, I.call(s, S.g(CHECKER, 'TenhouChecker'), [], {}, None), 'parse', [r], {'player_index': Const(0)}, None)), [])]
    for n in ('parse_dataframe_from_tenhou_record',):
        if S.has('mahjong.record', n):
            out.append(('from_file and ' + n, from_file(lambda I, s, r: I.call(s, S.g('mahjong.record', 'parse_dataframe_from_tenhou_record'), [r], {'return_state': FALSE}, None)), []))
    for n in ('light_dataframe_from_file',):
        if S.has('mahjong.record', n):
            out.append((n, lambda I, s: I.call(s, S.g('mahjong.record', 'light_dataframe_from_file'), [path], {}, None), []))
    for n in ('tenhou_log_id_from_url', 'tenhou_log_id_to_url', 'tenhou_download_url'):
        if S.has('mahjong.record', n):
            out.append((n, lambda I, s, n=n: I.call(s, S.g('mahjong.record', n), [link()], {}, None), []))
    return out


def run_all(S, rep, list_, **kw):
    out = []
    for name, f, inputs in list_:
        with rep.group(name):
            p = run_program(S, name, f, inputs, **kw)
            rep.count('entry points run')
            out.append(p)
            if p.out.dead and not p.out.raises:
                rep.undecided(name, '', 'no path through')
    return out


# ---- external names used anywhere in the package

class Ref_:
    def __init__(self, name, node, mod, path, call):
        self.name, self.node, self.mod, self.path, self.call = name, node, mod, path, call

    def where(self):
        return '%s:%d' % (self.path, self.node.lineno)

    def key(self):
        return (self.path, self.node.lineno, self.node.col_offset)


def external_names(S):
    """every use of an external or builtin name, with the call it is the function of"""
    import os
    out = []
    for mod, path in sorted(S.I.files.items()):
        if not path or not path.endswith('.py'):
            continue
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        rel = os.path.relpath(path, S.I.root)
        imports, bound = {}, set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    imports[a.asname or a.name] = '%s.%s' % (n.module, a.name)
            elif isinstance(n, ast.ImportFrom):
                bound |= {a.asname or a.name for a in n.names}
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bound.add(n.name)
            elif isinstance(n, ast.arg):
                bound.add(n.arg)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound.add(n.id)
        calls = {id(n.func): n for n in ast.walk(tree) if isinstance(n, ast.Call)}

        def dotted(n):
            if isinstance(n, ast.Name):
                if n.id in imports:
                    return imports[n.id]
                return n.id if n.id not in bound else None
            if isinstance(n, ast.Attribute):
                b = dotted(n.value)
                return b + '.' + n.attr if b else None
            return None
        inner = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and id(n) not in inner:
                d = dotted(n)
                x = n
                while isinstance(x, ast.Attribute):
                    x = x.value
                    inner.add(id(x))
                if d and not d.startswith('mahjong'):
                    out.append(Ref_(d, n, mod, rel, calls.get(id(n))))
                elif d is None and isinstance(n, ast.Attribute):
                    out.append(Ref_('.' + n.attr, n, mod, rel, calls.get(id(n))))
    return out


def node_key(S, node):
    import os
    f = S.I.files.get(getattr(node, '_mod', None))
    if not f or not hasattr(node, 'lineno'):
        return None
    return (os.path.relpath(f, S.I.root), node.lineno)


def names_in(v, out=None):
    """external functions a value was computed with"""
    out = set() if out is None else out
    seen = set()

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if type(x) is Term:
            if x.op == 'ext':
                n = x.args[0]
                out.add(n.v if type(n) is Const else n)
            for a in x.args:
                if isinstance(a, V):
                    go(a)
        elif type(x) is Tup:
            for a in x.items:
                go(a)
        elif type(x) is Ite:
            go(x.c), go(x.a), go(x.b)
        elif type(x) is Bi:
            out.add(x.name)
    go(v)
    return out


def argument(d, pos, name):
    """an argument of an external call by position or name"""
    if name in d['kwargs']:
        return d['kwargs'][name]
    a = d['args']
    return a[pos] if len(a) > pos and isinstance(a[pos], V) else None


def stack_of(d):
    return ' -> '.join(getattr(x, 'qual', '') or '' for x in (d.get('stack') or [])[-3:] if getattr(x, 'qual', ''))
