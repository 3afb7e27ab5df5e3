"""C31: documented entry points and signatures exist as documented."""
import ast, fnmatch, glob, os, re
from ..programs import *
from ..reports import *
from ..finite import feasible
from .c12 import ROW
from .c26 import WIN, total

RULE = ('Symbol resolution and abstract interpretation of the documented uses: the table of console commands is read from setup.py by interpreting it, '
        'every documented command has to be in it, its target has to resolve to something callable without arguments, and the interpretation with the '
        'documented input may not always raise; every Python example of the documentation is interpreted against the package (table programs replaced by '
        'a small table of rows that knows its columns) and may not raise, and has to use the results as the documentation names them; every name imported '
        'from within the package resolves; every module and data file belongs to what is installed; every other package imported is demanded by setup.py.')

ASSUMPTIONS = ['the documentation is README.md of the repository', 'setuptools, which provides pkg_resources, is there wherever the package got installed by pip']

COMMANDS = ('tenhou-check', 'mahjong-win-rate', 'paifu-extract')
HAND = '2345678p2345777s'
PROVIDES = {'pkg_resources': 'setuptools', 'bs4': 'beautifulsoup4', 'yaml': 'pyyaml', 'PIL': 'pillow', 'dateutil': 'python-dateutil', 'sklearn': 'scikit-learn'}
IMPLIED = {'setuptools'}

TABLE = ROW + '''

class Frame:
    """a table of rows: columns are picked by name"""
    def __init__(self, rows):
        self.rows = list(rows)

    @property
    def columns(self):
        return self.rows[0].keys()

    def apply(self, func, axis=0, **kw):
        if axis == "columns" or axis == 1:
            return Frame([func(r) for r in self.rows])
        raise NotImplementedError("by column")

    def __getitem__(self, name):
        if isinstance(name, list):
            return Frame([r[name] for r in self.rows])
        return [r[name] for r in self.rows]

    def __setitem__(self, name, value):
        for r in self.rows:
            r[name] = value

    def set_index(self, keys, append=False, **kw):
        for k in (keys if isinstance(keys, list) else [keys]):
            for r in self.rows:
                r[k]
        return self

    def unstack(self, level=-1):
        return self

    def ffill(self, **kw):
        return self

    def copy(self):
        return Frame([r.copy() for r in self.rows])

    def __len__(self):
        return len(self.rows)
'''


def run(rep):
    try:
        S = Session(rep, steps=4000000)
    except ImportError as e:
        rep.bad('the package can be imported', '', str(e))
        return
    setup = read_setup(S, rep)
    with rep.group('commands'):
        console(S, rep, setup)
    with rep.group('installed'):
        installed(S, rep, setup)
    with rep.group('imports'):
        imports(S, rep, setup)
    with rep.group('examples'):
        examples(S, rep)
    with rep.group('signatures'):
        signatures(S, rep)


# ---- what is installed

def read_setup(S, rep):
    """keyword arguments of setup() as Python values"""
    path = os.path.join(S.I.root, 'setup.py')
    with open(path) as f:
        text = f.read()
    box = {}

    def called(I, s, a, k, node):
        box['kw'] = {}
        for n, v in k.items():
            try:
                box['kw'][n] = plain(S, s, v)
            except NotPlain:
                box['kw'][n] = NotPlain
        return NONE

    def packages(I, s, a, k, node):
        def c(x):
            return plain(S, s, x)
        try:
            args = [c(x) for x in a]
            kw = {n: c(x) for n, x in k.items()}
        except NotPlain:
            return NotImplemented
        where = args[0] if args else kw.get('where', '.')
        ex = args[1] if len(args) > 1 else kw.get('exclude', ())
        inc = args[2] if len(args) > 2 else kw.get('include', ('*',))
        found = []
        root = os.path.normpath(os.path.join(S.I.root, where))
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if '.' not in x and os.path.isfile(os.path.join(d, x, '__init__.py')))
            n = os.path.relpath(d, root).replace(os.sep, '.')
            if n != '.' and any(fnmatch.fnmatchcase(n, p) for p in inc) and not any(fnmatch.fnmatchcase(n, p) for p in ex):
                found.append(n)
        return I.new_list(s, [Const(n) for n in found])
    h = dict(STUBS)
    h['ext:setuptools.setup'] = called
    h['ext:setuptools.find_packages'] = packages
    S.run(lambda I, s: S.define(I, s, text, 'setup') and NONE, S.state(), intercepts=h)
    if 'kw' not in box:
        rep.undecided('setup.py', 'setup.py:1', 'what it installs was not found')
    return box.get('kw', {})


def scripts_of(setup):
    ep = setup.get('entry_points')
    if isinstance(ep, str) or ep in (None, NotPlain):
        return None
    out = {}
    for x in ep.get('console_scripts', []):
        n, t = x.split('=', 1)
        out[n.strip()] = t.strip()
    return out


def resolve(S, dotted):
    """value of module:name(.name)*"""
    mod, _, names = dotted.partition(':')
    mod, names = mod.strip(), [x for x in names.split('[')[0].strip().split('.') if x]
    if mod not in S.I.modules:
        return None, 'there is no module %s' % mod
    if not names:
        return None, 'no name'
    v = S.I.glob(mod, names[0])
    if v is None:
        return None, '%s has no %s' % (mod, names[0])
    v = S.base.simp(v)
    for n in names[1:]:
        o = S.run(lambda I, s: I.get_attr(s, v, n, None), S.state())
        if o.dead:
            return None, '%s has no %s' % (mod, n)
        v = o.value
    return v, ''


def console(S, rep, setup):
    names = scripts_of(setup)
    if names is None:
        rep.undecided('console commands', 'setup.py:1', 'the table was not found')
        return
    doc = read_doc(S)
    for n in COMMANDS:
        if doc is not None and n not in doc:
            continue
        rep.decide(n in names, 'the command %s exists' % n, 'setup.py:1', 'setup.py makes %s' % sorted(names))
    for n, target in sorted(names.items()):
        rep.count('console commands')
        v, why = resolve(S, target)
        rep.decide(v is not None, 'command %s: %s resolves' % (n, target), 'setup.py:1', why)
        if v is None:
            continue
        at = S.loc_of(v)
        for iname, inputs in (('documented input', documented(n)),):
            if inputs is None:
                continue
            h = hooks(inputs, record=plain_record if n != 'tenhou-check' else None)
            if n == 'mahjong-win-rate':
                for c in ('NormalTypeWin', 'UniquePairs'):
                    h[S.method_qual(WIN, c, 'match')] = lambda I, s, f, a, k, node: Const(True)
                h['ext:random.choices'] = lambda I, s, a, k, node: I.new_list(s, (seq(S, s, a[0]) or [NONE])[:1])
            typed, asked = h['ext:input'], [0]

            def ask(I, s, a, k, node):
                asked[0] += 1
                if asked[0] > len(inputs) + 4:
                    I.raise_bi(s, 'EOFError', node, 'the input is not accepted')
                return typed(I, s, a, k, node)
            h['ext:input'] = ask
            o = S.run(lambda I, s: I.call(s, v, [], {}, None), S.state(), intercepts=h, steps=4000000)
            m = 'command %s with the %s' % (n, iname)
            raised = sorted({x for x, _ in S.exc(o) if not x.startswith('SystemExit')})
            rep.decide(False if o.dead and raised else True if not o.dead else None, m, at, 'it always raises %s' % raised)


def documented(n):
    if n == 'mahjong-win-rate':
        return [Const(HAND), Const('3'), Const('2'), Const('')]
    if n == 'tenhou-check':
        return [Const(LINK), Const('1'), Const('')]
    if n == 'paifu-extract':
        return [Const(LINK), Const('')]
    return None


def installed(S, rep, setup):
    pk = setup.get('packages')
    if not isinstance(pk, (list, tuple)):
        rep.undecided('installed packages', 'setup.py:1', 'not found')
        return
    pk = set(pk)
    for n in sorted(S.I.modules):
        f = S.I.files.get(n)
        if not f or not n.startswith(S.I.package):
            continue
        p = n if f.endswith('__init__.py') else n.rpartition('.')[0]
        rep.decide(p in pk, 'module %s is installed' % n, os.path.relpath(f, S.I.root), 'its folder is not a package')
    data = setup.get('package_data')
    if not isinstance(data, dict):
        data = {}
        if setup.get('include_package_data'):
            rep.undecided('data files', 'setup.py:1', 'chosen elsewhere')
            return
    base = os.path.join(S.I.root, S.I.package)
    for d, ds, fs in os.walk(base):
        for f in fs:
            if not f.endswith(('.html', '.png')):
                continue
            ok = False
            x = d
            while len(x) >= len(base) and not ok:
                p = os.path.relpath(x, S.I.root).replace(os.sep, '.')
                if p in pk:
                    rel = os.path.relpath(os.path.join(d, f), x)
                    ok = any(fnmatch.fnmatchcase(rel, g) and (os.sep in g or os.sep not in rel) for k in ('', p) for g in data.get(k, ()))
                x = os.path.dirname(x)
            rep.decide(ok, 'data file %s is installed' % os.path.relpath(os.path.join(d, f), S.I.root), 'setup.py:1', 'no pattern covers it')


# ---- imports

def imports(S, rep, setup):
    import sys
    req = setup.get('install_requires')
    std = set(getattr(sys, 'stdlib_module_names', ()))
    names = None
    if isinstance(req, (list, tuple)):
        names = {re.split(r'[<>=!~;\[ ]', x.strip(), 1)[0].lower().replace('_', '-') for x in req} | IMPLIED
    for m in sorted(S.I.modules):
        f = S.I.files.get(m)
        if not f or not m.startswith(S.I.package):
            continue
        with open(f, encoding='utf-8') as fh:
            tree = ast.parse(fh.read())
        guarded = {id(x) for t in ast.walk(tree) if isinstance(t, ast.Try) for b in t.body for x in ast.walk(b)}
        for n in ast.walk(tree):
            if not isinstance(n, (ast.Import, ast.ImportFrom)) or id(n) in guarded:
                continue
            at = '%s:%d' % (os.path.relpath(f, S.I.root), n.lineno)
            if isinstance(n, ast.Import):
                todo = [(a.name, None) for a in n.names]
            else:
                mod = n.module or ''
                if n.level:
                    parts = m.split('.') if f.endswith('__init__.py') else m.split('.')[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    mod = '.'.join(parts + ([mod] if mod else []))
                todo = [(mod, a.name) for a in n.names]
            for mod, name in todo:
                rep.count('imports')
                if S.I.is_internal(mod):
                    ok = mod in S.I.modules and (name in (None, '*') or S.I.glob(mod, name) is not None or mod + '.' + name in S.I.modules)
                    rep.decide(ok, 'import of %s' % (mod if name is None else '%s.%s' % (mod, name)), at, 'there is nothing of that name')
                elif names is not None and std:
                    top = mod.split('.')[0]
                    if top in std or top == '__future__':
                        continue
                    ok = PROVIDES.get(top, top).lower().replace('_', '-') in names
                    rep.decide(ok, 'import of %s is demanded' % top, at, 'setup.py does not demand it')


# ---- examples

def read_doc(S):
    for n in ('README.md', 'README.rst', 'README'):
        p = os.path.join(S.I.root, n)
        if os.path.isfile(p):
            with open(p, encoding='utf-8') as f:
                return f.read()
    return None


def stored_rows(S, I, s, frames):
    """rows of a table of commands as it is read back"""
    rows = []
    C = 'mahjong.record.universe.command'
    F = 'mahjong.record.universe.format'
    up = I.get_attr(s, S.g(F, 'Update'), 'REPLACE', None)
    for view, prop, sub, val in (('PlayerView', 'score', 2, 25000), ('GameView', 'nobody_win', 'all', False), ('RecordView', 'play_level', 'all', 'x'),
                                 ('PlayerView', 'hand', 0, ['0m', '7z'])):
        p = I.get_attr(s, S.g(F, view), prop, None)
        v = I.new_list(s, [Const(x) for x in val]) if isinstance(val, list) else Const(val)
        c = I.call(s, S.g(C, 'GameCommand'), [], {'prop': p, 'update': up, 'sub_scope': Const(sub), 'value': v, 'state': v}, None)
        r = I.call_method(s, c, 'to_record', [], {}, None)
        names = seq(S, s, I.get_attr(s, r, '_fields', None))
        cells = []
        for n in names:
            x = I.get_attr(s, r, n.v, None)
            cells.append(Tup((n, Const(float('nan')) if x == NONE else x)))
        cells.insert(0, Tup((Const('Unnamed: 0'), Const(len(rows)))))
        rows.append(I.call(s, frames['Row'], [I.new_list(s, cells)], {}, None))
    return I.call(s, frames['Frame'], [I.new_list(s, rows)], {}, None)


def examples(S, rep):
    doc = read_doc(S)
    if doc is None:
        rep.undecided('documentation', '', 'not found')
        return
    for m in re.finditer(r'```python\n(.*?)```', doc, re.S):
        code = m.group(1)
        first = next((l for l in code.splitlines() if l.strip()), '')
        line = doc[:m.start()].count('\n') + 2
        name = 'the example at README.md line %d' % line
        table = 'read_csv' in code
        c = Calls()
        box = {}

        def f(I, s):
            frames = S.define(I, s, TABLE)
            box['frames'] = frames
            box['table'] = lambda I, s: stored_rows(S, I, s, frames)
            box['env'] = S.define(I, s, code, 'README.md')
            return NONE
        h = hooks(())
        h['ext:pandas.read_csv'] = lambda I, s, a, k, node: box['table'](I, s)
        o = S.run(f, S.state(), listen=c, intercepts=h, steps=3000000)
        rep.count('examples')
        raised = sorted({x for x, _ in S.exc(o)})
        rep.decide(False if o.dead and raised else True if not o.dead else None, name, 'README.md:%d' % line, 'it always raises %s' % raised)
        if o.dead:
            continue
        for d in c.all:
            if d.get('name') == 'open' and d.get('args'):
                used(S, rep, name + ': file opened', 'README.md:%d' % line, d['args'][0], False)
            if d.get('name', '').endswith('.write') and d.get('args'):
                used(S, rep, name + ': text written', 'README.md:%d' % line, d['args'][-1], True)


def used(S, rep, name, at, v, page):
    """is a value the page made from the template"""
    ns = names_in(v)
    is_page = any('render' in x or 'jinja2' in x for x in ns)
    rep.decide(is_page == page, name, at, 'it is %s' % ('the page' if is_page else 'not the page'))


def signatures(S, rep):
    """the documented uses with their results"""
    link = Const(LINK)

    def parse(**kw):
        def f(I, s):
            c = I.call(s, S.g(CHECKER, 'TenhouChecker'), [], {}, None)
            return I.call_method(s, c, 'parse', [link], {k: Const(v) for k, v in kw.items()}, None)
        return f
    at = S.loc_of(S.g(CHECKER, 'TenhouChecker'))
    for kw in (dict(player_index=1, timeout=15, generate_filename=True), dict(player_index=0, generate_filename=True), dict(player_index=3, timeout=1, generate_filename=True)):
        o = S.run(parse(**kw), S.state(), intercepts=hooks(()), steps=3000000)
        n = 'TenhouChecker().parse(link, %s)' % ', '.join('%s=%r' % x for x in kw.items())
        raised = sorted({x for x, _ in S.exc(o)})
        if o.dead:
            rep.decide(False if raised else None, n, at, 'it always raises %s' % raised)
            continue
        v = o.value
        xs = seq(S, o.st, v) if type(v) in (Tup, Ref) else None
        if xs is None:
            rep.decide(False if type(v) in (Tup, Const) else None, n + ' gives a pair', at, repr(v)[:100])
            continue
        rep.decide(len(xs) == 2, n + ' gives a pair', at, '%d values' % len(xs))
        if len(xs) == 2:
            used(S, rep, n + ': name', at, xs[0], False)
            used(S, rep, n + ': page', at, xs[1], True)
