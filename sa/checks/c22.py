"""C22: text of a record cannot inject markup, and every picture and field the page needs exists."""
import ast, fnmatch, html, os, re
from ..reports import *
from ..page import *
from ..programs import *

RULE = ('(1) Every way of making the page is interpreted abstractly: the template engine it is rendered with has escaping switched on for the '
        'template\'s name, no later statement switches it off, nothing of a record is marked as safe in Python, and what is handed out is the rendered '
        'page itself. (2) Taint analysis of the layout\'s syntax tree: no value that may hold text of a record is marked safe, printed where escaping is '
        'off, or printed in a script, a style or an unquoted attribute. (3) Abstract interpretation of the layout on the reports of scripted games: every '
        'variable, field and filter it uses is provided and usable there. (4) The picture classes it defines cover every tile name of the 136 tiles and '
        'every one it shows; their files exist where the installed and the frozen program read them, and are packaged.')

ASSUMPTIONS = ['jinja2\'s autoescaping escapes every printed text that is not marked safe', 'games other than the scripted ones fill the same fields']

NOT_RECORD = {'sys.frozen', 'sys._MEIPASS'}
MARKUP = ('markupsafe.Markup', 'jinja2.Markup', 'jinja2.utils.Markup', 'flask.Markup', 'jinja2.utils.markupsafe.Markup')


def run(rep):
    S = Session(rep)
    if jinja() is None:
        rep.undecided('the layout can be read', '', 'jinja2 is not installed')
        return
    tainted, pages = {}, {}
    for p in run_all(S, rep, [e for e in entries(S) + offline(S)]):
        made(S, rep, p, tainted, pages)
    lint(S, rep)
    if not pages:
        rep.undecided('a page is rendered', '', 'no rendering found')
        return
    jobs = [(sc, me) for players in (4, 3) for me in range(players) for sc in scripts(me, players)]
    for name, root in sorted(pages):
        page(S, rep, name, root, tainted, jobs)
    pictures_of_tiles(S, rep, pages)


# ---- how the page is made

def made(S, rep, p, tainted, pages):
    renders = [d for d in p.calls.all if d['name'] in ('.render', '.generate', '.stream', '.render_async') and from_template(d['recv'])]
    off = [(k, d) for k, d in p.calls.sets if k == 'setattr_ext' and d['name'] == 'autoescape']
    for d in p.calls.all:
        if d['name'] in ('jinja2.Template', 'jinja2.environment.Template') or d['name'] == '.from_string':
            v = argument(d, 0, 'source')
            rep.undecided('%s: template from text' % p.name, S.loc(d['node']), repr(v)[:200])
        if d['name'] in MARKUP:
            v = d['args'][0] if d['args'] else Const('')
            r = record_text(d['st'], v, ST=S)
            rep.decide(False if r else True if r is False else None, '%s: nothing of a record is marked safe' % p.name, S.loc(d['node']),
                       'Markup(%s)' % repr(v)[:200])
    for d in renders:
        at, st = S.loc(d['node']), d['st']
        n = '%s: page at %s' % (p.name, at)
        rep.count('renderings met')
        t = d['recv']
        env, names = engine(st, t)
        if env is None:
            rep.undecided(n + ': the engine', at, repr(t)[:300])
            continue
        for nm in names:
            rep.decide(escapes(S, st, env, nm, off), n + ': escaping is on for %s' % nm, at, 'autoescape is %s' % shown(st, env))
            for r in roots(S, env):
                rep.decide(os.path.isfile(os.path.join(S.I.root, r, nm)), n + ': the layout exists in %s' % r, at, 'no file %s' % os.path.join(r, nm))
                if os.path.isfile(os.path.join(S.I.root, r, nm)):
                    pages[(nm, r)] = d
        for k, v in d['kwargs'].items():
            tainted.setdefault(k, []).append((st, v))
        for a in d['args']:
            es = dict_items(S, st, a)
            for k, v in es or []:
                tainted.setdefault(k, []).append((st, v))
        handed_out(S, rep, n, at, p, d)


def from_template(r):
    return 'get_template' in repr(r) or 'select_template' in repr(r) or 'jinja2' in repr(r)


def dict_items(S, st, v):
    v = st.simp(v)
    if type(v) is Ref and m_coll.kind_of(S.I, st, v) == 'dict':
        return [(st.simp(e.k).v, e.v) for e in st.get(v.oid).data.values() if type(st.simp(e.k)) is Const]
    return []


def engine(st, t):
    """the Environment a template came from, the names it may have"""
    t = st.simp(t)
    names = []
    for _ in range(6):
        if type(t) is not Term:
            break
        if t.op == 'call' and len(t.args) >= 2 and t.args[1] in (Const('get_template'), 'get_template'):
            a = [st.simp(x) for x in t.args[2:] if isinstance(x, V)]
            a = a[:1]
            if a and type(a[0]) is Tup and len(a[0].items) == 2:
                a = [a[0].items[1]]
            if not a or any(type(x) is not Const for x in a):
                return None, []
            names = [x.v for x in a]
            t = st.simp(t.args[0])
            continue
        if t.op == 'ext' and t.args[0] in (Const('jinja2.Environment'), 'jinja2.Environment', Const('jinja2.environment.Environment'), 'jinja2.environment.Environment'):
            return (t, names) if names else (None, [])
        break
    return None, []


def kwargs_of(t):
    out = {}
    for x in t.args[1:]:
        if type(x) is Tup and len(x.items) == 2 and type(x.items[0]) is Const and isinstance(x.items[0].v, str):
            out[x.items[0].v] = x.items[1]
        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
            out[x[0]] = x[1]
    return out


def positional(t):
    return [x for x in t.args[1:] if isinstance(x, V) and not (type(x) is Tup and len(x.items) == 2 and type(x.items[0]) is Const)]


def shown(st, env):
    v = kwargs_of(env).get('autoescape')
    return 'not given (off)' if v is None else repr(v)[:120]


def escapes(S, st, env, name, off):
    """is escaping on for the template's name"""
    kw = kwargs_of(env)
    v = kw.get('autoescape', FALSE)
    for k, d in off:
        if type(d['value']) is Term and same_engine(d['value'], env):
            v = d['val'] if isinstance(d.get('val'), V) else None
    if v is None:
        return None
    r = [on(S, st, x, name) for _, x in alts(st, v)]
    return False if False in r else None if None in r else True


def same_engine(a, b):
    return a == b or type(a) is Term and a.op == 'ext' and a.args[0] == b.args[0]


def on(S, st, v, name):
    v = st.simp(v)
    if type(v) is Const:
        return bool(v.v)
    if type(v) is Term and v.op == 'ext' and str(getattr(v.args[0], 'v', v.args[0])).endswith('select_autoescape'):
        kw, pos = kwargs_of(v), positional(v)
        en = kw.get('enabled_extensions', pos[0] if pos else None)
        dis = kw.get('disabled_extensions', pos[1] if len(pos) > 1 else None)
        default = kw.get('default', pos[3] if len(pos) > 3 else FALSE)
        try:
            en = ('html', 'htm', 'xml') if en is None else tuple(plain(S, st, en))
            dis = () if dis is None else tuple(plain(S, st, dis))
            default = plain(S, st, default)
        except NotPlain:
            return None
        low = name.lower()
        if any(low.endswith('.' + x.lstrip('.').lower()) for x in en):
            return True
        if any(low.endswith('.' + x.lstrip('.').lower()) for x in dis):
            return False
        return bool(default)
    o = S.run(lambda I, s: I.truth(s, I.call(s, v, [Const(name)], {}, None)), st.copy())
    return bool(o.value.v) if not o.dead and type(o.value) is Const and type(v) is not Term else None


def roots(S, env):
    """directories (below the repository) the engine's loaders read"""
    out = set()

    def go(v):
        if type(v) is Ite:
            go(v.a), go(v.b)
        elif type(v) is Term and v.op == 'ext':
            n = str(getattr(v.args[0], 'v', v.args[0])).split('.')[-1]
            kw, pos = kwargs_of(v), positional(v)
            if n == 'PackageLoader':
                pk = kw.get('package_name', pos[0] if pos else None)
                pp = kw.get('package_path', pos[1] if len(pos) > 1 else Const('templates'))
                if type(pk) is Const and type(pp) is Const:
                    out.add(os.path.join(*(pk.v.split('.') + [pp.v])))
            elif n == 'FileSystemLoader':
                f = in_bundle(kw.get('searchpath', pos[0] if pos else None))
                if f is not None:
                    out.add(f)
    for v in kwargs_of(env).values():
        go(v)
    for v in positional(env):
        go(v)
    return sorted(out)


def in_bundle(v):
    """path below the bundle of a frozen program, when the value is such a path"""
    if v is None:
        return None
    parts = []

    def go(x):
        if type(x) is Const and isinstance(x.v, str):
            parts.append(x.v)
            return True
        if type(x) is Term and x.op == 'ext' and str(getattr(x.args[0], 'v', x.args[0])) == 'os.path.join':
            return all(go(y) for y in x.args[1:])
        if type(x) is Term and x.op == 'cat':
            bs = []
            for y in x.args:
                if type(y) is Const:
                    bs.append(str(y.v))
                elif '_MEIPASS' in repr(y):
                    bs.append('')
                else:
                    return False
            parts.append(''.join(bs).strip('/\\'))
            return True
        return repr(x) == '<sys._MEIPASS>'
    if '_MEIPASS' not in repr(v) or not go(v):
        return None
    return os.path.normpath(os.path.join(*parts)) if parts else '.'


def record_text(st, v, depth=6, ST=None):
    """may the value hold text of a record or a link: True / False / None"""
    if ST is not None and isinstance(v, V):
        try:
            plain(ST, st, v)
            return False
        except (NotPlain, TypeError):
            pass
    v = st.simp(v) if isinstance(v, V) else v
    t = type(v)
    if t is Const:
        return False
    if t is Tup:
        return may([record_text(st, x, depth) for x in v.items])
    if t is Ite:
        return may([record_text(st, v.a, depth), record_text(st, v.b, depth)])
    if t is Term:
        if v.ty in ('int', 'float', 'bool'):
            return False
        if v.op == 'leaf' or not v.args:
            return not any(x in repr(v) for x in NOT_RECORD)
        return may([record_text(st, x, depth) for x in v.args if isinstance(x, V)])
    if t is Ref and depth:
        o = st.get(v.oid)
        out = []
        if o.kind in ('class', 'func', 'module'):
            return False
        for x in list(o.attrs.values()):
            if isinstance(x, V):
                out.append(record_text(st, x, depth - 1))
        d = o.data
        if isinstance(d, (list, tuple)):
            out += [record_text(st, getattr(e, 'v', e), depth - 1) for e in d if isinstance(getattr(e, 'v', e), V)]
        elif isinstance(d, dict):
            out += [record_text(st, e.v, depth - 1) for e in d.values() if isinstance(getattr(e, 'v', None), V)]
        return may(out)
    return False if t is Bi else None


def handed_out(S, rep, n, at, p, d):
    """what is returned or written is the page as rendered"""
    page_ = None
    if 'program' in p.name:
        vs = [(x['args'][0], x) for x in p.calls.all if x['name'] == '.write' and x['args']]
    else:
        v = p.out.value if not p.out.dead else None
        vs = [(v.items[1], None)] if type(v) is Tup and len(v.items) == 2 else [(v, None)] if v is not None else []
    for v, x in vs:
        st = x['st'] if x else p.out.st
        v = st.simp(v) if isinstance(v, V) else v
        if 'render' not in repr(v):
            continue
        ok, why = untouched(v)
        rep.decide(ok, n + ': the page is handed out as rendered', S.loc(x['node']) if x else at, why)


def untouched(v):
    t = type(v)
    if t is Ite:
        return both_([untouched(v.a), untouched(v.b)])
    if t is Const:
        return True, ''
    if t is Term:
        if v.op in ('call', 'ext') and 'render' in [str(getattr(x, 'v', x)) for x in v.args[:2]]:
            return True, ''
        if v.op in ('strip', 'lstrip', 'rstrip', 'str', 'encode', 'cat'):
            return both_([untouched(x) for x in v.args if isinstance(x, V)])
        nm = str(getattr(v.args[0], 'v', v.args[0])) if v.op == 'ext' and v.args else v.op
        if nm in ('html.unescape', 'xml.sax.saxutils.unescape'):
            return False, 'it went through %s' % nm
        if v.op == 'replace':
            old = v.args[1] if len(v.args) > 1 else None
            if type(old) is Const and isinstance(old.v, str) and old.v and html.unescape(old.v) != old.v:
                return False, 'replace(%r, …) takes escaping out' % old.v
            return None, ''
        r = 'render' in repr(v)
        return (None if r else False), 'text that did not go through the template: %s' % repr(v)[:150]
    return None, ''


def both_(rs):
    bad = [r for r in rs if r[0] is False]
    if bad:
        return bad[0]
    return (None, '') if any(r[0] is None for r in rs) else (True, '')


def lint(S, rep):
    k = 0
    for r in external_names(S):
        if r.name in MARKUP and r.call is not None:
            a = r.call.args[0] if r.call.args else None
            if a is not None and not isinstance(a, ast.Constant):
                k += 1
                rep.undecided('marked safe at %s' % r.where(), r.where(), ast.unparse(a))
    for mod, path in sorted(S.I.files.items()):
        if not path or not path.endswith('.py'):
            continue
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        rep.count('modules searched for markup methods')
        for c in ast.walk(tree):
            if isinstance(c, ast.FunctionDef) and c.name == '__html__':
                fixed = all(isinstance(x.value, ast.Constant) or x.value is not None and 'escape' in ast.unparse(x.value) for x in ast.walk(c) if isinstance(x, ast.Return) and x.value is not None)
                rep.decide(True if fixed else False, 'no text of a record counts as markup of its own', '%s:%d' % (os.path.relpath(path, S.I.root), c.lineno),
                           '__html__ hands out text unescaped')


# ---- the layout

def page(S, rep, name, root, tainted, jobs):
    L = Layout(S, os.path.join(S.I.root, root), name)
    rel = os.path.join(root, name)
    try:
        names = L.names()
    except Exception as e:
        rep.bad('%s: the layout is well formed' % rel, rel, str(e)[:200])
        return
    rep.count('layouts read', len(names))
    outs = [scenario(S, rep, L, rel, sc, me) for sc, me in jobs]
    kinds, reads, fixed = {}, {}, {}
    for o in outs:
        if o is None:
            continue
        for k, v in o['kinds'].items():
            kinds.setdefault(k, set()).update(v)
        for k, v in o['reads'].items():
            reads.setdefault(k, set()).update(v)
        for k, v in o['fixed'].items():
            fixed.setdefault(k, []).append(v)
    for (t, line, what), f in sorted(reads.items(), key=str):
        rep.decide(True in f, '%s: %s is provided' % (t, what), '%s:%d' % (os.path.join(root, t), line), 'no report has it')
        rep.count('fields and variables of the layout read')
    # taint
    sources = {}
    for k, vs in tainted.items():
        if k in ('self', 'loop'):
            continue
        same = fixed.get(k, [])
        const = bool(same) and all(x is not None and x == same[0] for x in same)
        t = may([record_text(st, v, ST=S) for st, v in vs])
        sources[k] = False if const and t is False else True if t or not const and same and any(x is None or x != same[0] for x in same) else t
        rep.count('values handed to the layout')
    opener = opened(L)

    def tell(what, t, x, v, auto):
        at = '%s:%d' % (os.path.join(root, t), x.lineno)
        if what == 'safe':
            rep.decide(False if v is True else None if v is None else True, '%s: nothing of a record is marked safe' % t, at, 'text of a record goes through safe')
        else:
            rep.count('printed expressions')
            if auto is not True:
                rep.decide(True if v is False else False if v is True and auto is False else None, '%s: printed with escaping' % t, at, 'escaping is off here')
            else:
                rep.ok('%s: printed with escaping' % t, at)
            where = opener.get(id(x))
            if where:
                num = kinds.get(id(x))
                inert = num and num <= {'number'} or v is False
                rep.decide(True if inert else None if v is None or not num else False, '%s: no text of a record in %s' % (t, where), at, 'escaping does not protect there')
    Flow(L, sources, kinds, tell).run()
    for o in outs:
        if o is not None:
            pictures(S, rep, L, rel, o)


def opened(L):
    """outputs that stand in a script, a style or an unquoted attribute: {id(expression): where}"""
    out = {}
    n = L.j.nodes
    for t in L.names():
        buf = ['']

        def go(nodes):
            for x in nodes:
                if isinstance(x, n.Output):
                    for y in x.nodes:
                        if isinstance(y, n.TemplateData):
                            buf[0] += y.data
                        else:
                            w = place(buf[0])
                            if w:
                                out[id(y)] = w
                            buf[0] += 'X'
                elif isinstance(x, n.Macro):
                    keep, buf[0] = buf[0], ''
                    go(x.body)
                    buf[0] = keep
                elif isinstance(x, n.If):
                    keep = buf[0]
                    go(x.body)
                    after = buf[0]
                    for y in list(x.elif_):
                        buf[0] = keep
                        go([y])
                    if x.else_:
                        buf[0] = keep
                        go(x.else_)
                    buf[0] = after
                else:
                    for f in ('body', 'else_'):
                        if isinstance(getattr(x, f, None), list):
                            go(getattr(x, f))
        go(L.tree(t).body)
    return out


def place(s):
    low = re.sub(r'<!--.*?-->', '', s.lower(), flags=re.S)
    for tag in ('script', 'style'):
        if len(re.findall('<%s[ >]' % tag, low)) > len(re.findall('</%s' % tag, low)):
            return 'a %s' % tag
    i = low.rfind('<')
    if i > low.rfind('>'):
        tag = low[i:]
        quotes = re.sub(r'"[^"]*"|\'[^\']*\'', '', tag)
        if '"' in quotes or "'" in quotes:
            return None
        if re.search(r'=\s*[^\s"\'>]*$', tag):
            return 'an unquoted attribute'
    return None


# ---- scripted games

def scenario(S, rep, L, rel, sc, me):
    base = '%d players, seat %d, %s' % (sc.players, me, sc.name)
    box = {}
    with rep.group(base):
        sets = []
        b = report(S, sc, me, Judge(S), lambda k, d: sets.append((k, d)) if k in ('setitem_ext', 'ext_call') else None)
        if b.kwargs is None:
            rep.undecided(base + ': page', '', 'no page rendered')
            return None
        values = dict(b.kwargs)
        filters = filters_of(S, sets)
        calls = Calls()
        kinds, errs = {}, []
        r = Render(L, b.rst.copy(), values, filters, lambda t, x, why: errs.append((t, x.lineno, why)), kinds, listen=calls)
        out = r.run()
        seen = set()
        for t, line, why in errs:
            if (t, line, why) not in seen:
                seen.add((t, line, why))
                rep.bad('%s: page can be rendered' % base, '%s:%d' % (os.path.join(os.path.relpath(L.root, S.I.root), t), line), why)
        if not errs:
            rep.ok('%s: page can be rendered' % base, rel)
        rep.count('reports laid out')
        rep.count('layout steps interpreted', r.steps)
        fixed = {}
        for k, v in values.items():
            try:
                fixed[k] = plain(S, b.rst, v)
            except NotPlain:
                fixed[k] = None
        return dict(name=base, kinds=kinds, reads=r.reads, fixed=fixed, out=out, calls=calls.all, values=values)
    return None


def filters_of(S, sets):
    out = {}
    for k, d in sets:
        if k == 'setitem_ext' and 'filters' in repr(d['value'])[:4000] and type(d['key']) is Const:
            out[d['key'].v] = d['val']
        elif k == 'ext_call' and d['name'] == '.update' and d.get('recv') is not None and 'filters' in repr(d['recv']):
            for a in d['args']:
                for n, v in dict_items(S, d['st'], a):
                    out[n] = v
            out.update(d['kwargs'])
    return out


# ---- pictures

def pieces_text(out):
    return ''.join(p if type(p) is str else '\0' for p in out)


def classes_of(text):
    defined = {}
    for m in re.finditer(r'\.(pic[0-9a-z]+)\s*\{([^}]*)\}', text):
        defined[m.group(1)] = m.group(2)
    used = set()
    for m in re.finditer(r'class="([^"]*)"', text):
        used |= {c for c in m.group(1).split() if c.startswith('pic')}
    return defined, used


def pictures(S, rep, L, rel, o):
    text = pieces_text(o['out'])
    defined, used = classes_of(text)
    n = o['name']
    if not defined:
        rep.undecided(n + ': pictures', rel, 'no picture classes recognised')
        return
    miss = sorted(u for u in used if u not in defined)
    rep.decide(None if any('\0' in u for u in miss) else not miss, n + ': every tile shown has a picture', rel, 'no picture for %s' % ', '.join(miss)[:200])
    rep.count('tile pictures shown', len(used))
    files = {}
    for d in o['calls']:
        f = packaged(S, d)
        if f:
            files.setdefault(f[0], set()).add((f[1], S.loc(d['node'])))
    for f, how in sorted(files.items()):
        for h, at in sorted(how):
            rep.decide(os.path.isfile(os.path.join(S.I.root, f)), '%s: %s is there (%s)' % (n, f, h), at, 'no such file')
            rep.decide(in_package(S, f), '%s: %s is packaged' % (n, f), 'setup.py', 'package_data does not cover it')
            rep.count('picture files looked up')


def packaged(S, d):
    """(file below the repository, how) read from the package or the bundle"""
    nm = d['name']
    if nm in ('pkg_resources.resource_string', 'pkg_resources.resource_stream', 'pkg_resources.resource_filename', 'pkgutil.get_data', 'importlib.resources.read_binary',
              'importlib.resources.open_binary'):
        a, b = argument(d, 0, 'package_or_requirement'), argument(d, 1, 'resource_name')
        a, b = [d['st'].simp(x) if isinstance(x, V) else None for x in (a, b)]
        if type(a) is Const and type(b) is Const:
            return os.path.normpath(os.path.join(*(a.v.split('.') + [b.v]))), 'installed'
    if nm in ('open', 'io.open'):
        f = in_bundle(argument(d, 0, 'file'))
        if f:
            return f, 'frozen'
    return None


def in_package(S, f):
    """the file is part of a package and matched by package_data"""
    pk = os.path.dirname(f)
    p = pk
    while p:
        if not os.path.isfile(os.path.join(S.I.root, p, '__init__.py')):
            return False
        p = os.path.dirname(p)
    try:
        with open(os.path.join(S.I.root, 'setup.py'), encoding='utf-8') as h:
            tree = ast.parse(h.read())
    except OSError:
        return None
    for c in ast.walk(tree):
        if isinstance(c, ast.Call) and getattr(c.func, 'id', getattr(c.func, 'attr', '')) == 'setup':
            kw = {k.arg: k.value for k in c.keywords}
            try:
                data = ast.literal_eval(kw['package_data']) if 'package_data' in kw else {}
            except ValueError:
                return None
            pats = list(data.get('', [])) + list(data.get(pk.replace('/', '.'), []))
            if any(fnmatch.fnmatch(os.path.basename(f), x) for x in pats):
                return True
            return None if 'include_package_data' in kw else False
    return None


def pictures_of_tiles(S, rep, pages):
    """each of the 136 tiles has a picture: names by the package's own conversion"""
    names = {}
    mod = 'mahjong.record.utils.value.tile'
    at = S.loc_of(S.g(mod, 'tile_from_tenhou'))
    for i in range(136):
        o = S.run(lambda I, s: I.call(s, S.g(CHECK, 'to_plain_tile') if S.has(CHECK, 'to_plain_tile') else Bi('str'),
                                      [I.call(s, S.g(mod, 'tile_from_tenhou'), [Const(i)], {}, None)], {}, None))
        if not o.dead and type(o.value) is Const:
            names[o.value.v] = i
    rep.count('tile names', len(names))
    for (nm, root), d in sorted(pages.items()):
        kw, st = d['kwargs'], d['st']
        kw = dict([x for a in d['args'] for x in dict_items(S, st, a)], **kw)
        v = kw.get('all_tiles')
        try:
            have = set(plain(S, st, v)) if v is not None else None
        except (NotPlain, TypeError):
            have = None
        miss = sorted(x for x in names if have is not None and x not in have)
        rep.decide(None if have is None else not miss, 'every tile name is one with a picture', at, 'no picture for %s' % ', '.join(miss))
        if have:
            files = [p for p in have if not any(os.path.isfile(os.path.join(b, str(p) + '.png')) for b, _, _ in os.walk(os.path.join(S.I.root, root)))]
            rep.decide(not files, 'every picture is there', root, 'no picture file for %s' % ', '.join(map(str, sorted(files))))
    rep.count('tiles named', 136)
    rep.decide(in_package(S, os.path.join(sorted(pages)[0][1], sorted(pages)[0][0])), 'the layout is packaged', 'setup.py', 'package_data does not cover it')
