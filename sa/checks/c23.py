"""C23: files are written only as plain names in the current directory."""
import re
from ..programs import *

RULE = ('External-call effect analysis with an analysis of text: every entry point is interpreted abstractly with a symbolic link and symbolic player '
        'names; the path of every file that is opened for writing is examined, and no part of it may contain a path separator (texts from the '
        'link or the record may contain one unless a substitution took it out). Entry points other than the two programs write no file, and '
        'every use of a writing function in the package is one of those met.')

ASSUMPTIONS = ['files are written through the named functions of the standard library and pandas']

WRITERS = {'.to_csv': (0, ('path_or_buf',)), '.to_excel': (0, ('excel_writer',)), '.to_pickle': (0, ('path',)), '.to_json': (0, ('path_or_buf',)),
           '.to_html': (0, ('buf',)), '.to_parquet': (0, ('path',)), '.to_feather': (0, ('path',)), '.to_hdf': (0, ('path_or_buf',)),
           '.to_markdown': (0, ('buf',)), '.to_latex': (0, ('buf',)), '.savefig': (0, ('fname',)), 'numpy.save': (0, ('file',)), 'numpy.savetxt': (0, ('fname',)),
           'numpy.savez': (0, ('file',)), 'os.mkdir': (0, ('path',)), 'os.makedirs': (0, ('name',)), 'os.remove': (0, ('path',)), 'os.unlink': (0, ('path',)),
           'os.rmdir': (0, ('path',)), 'os.rename': (1, ('dst',)), 'os.replace': (1, ('dst',)), 'os.open': (0, ('path',)), 'os.symlink': (1, ('dst',)),
           'os.link': (1, ('dst',)), 'os.truncate': (0, ('path',)), 'shutil.copy': (1, ('dst',)), 'shutil.copyfile': (1, ('dst',)), 'shutil.move': (1, ('dst',)),
           'shutil.rmtree': (0, ('path',)), 'shutil.copytree': (1, ('dst',)), 'sqlite3.connect': (0, ('database',))}
METHOD_WRITERS = ('.write_text', '.write_bytes', '.touch', '.mkdir', '.unlink', '.rename', '.rmdir', '.symlink_to')
OPENERS = ('open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open')
PROGRAMS = ('program',)


def writes(S, d):
    """(path value, certainly a write) or None"""
    n, st = d['name'], d['st']
    if n in OPENERS:
        m = argument(d, 1, 'mode')
        if m is None:
            return None
        m = st.simp(m)
        if type(m) is not Const:
            return argument(d, 0, 'file'), None
        if isinstance(m.v, str) and set(m.v) & set('wax+'):
            return argument(d, 0, 'file'), True
        return None
    if n == '.open' and d.get('recv') is not None and 'pathlib' in ' '.join(str(x) for x in names_in(d['recv'])):
        m = argument(d, 0, 'mode')
        m = st.simp(m) if m is not None else None
        if type(m) is Const and isinstance(m.v, str) and set(m.v) & set('wax+'):
            return inner(d['recv']), True
        return None
    if n in METHOD_WRITERS and d.get('recv') is not None and 'pathlib' in ' '.join(str(x) for x in names_in(d['recv'])):
        return inner(d['recv']), True
    if n in WRITERS:
        pos, names = WRITERS[n]
        for k in names:
            if k in d['kwargs']:
                return d['kwargs'][k], True
        v = argument(d, pos, names[0])
        if v is None and n.startswith('.'):
            return None                                     # returns the text
        return v, True
    if n == 'loguru.logger.add':
        v = argument(d, 0, 'sink')
        if type(v) is Const or type(v) is Term and getattr(v, 'ty', '') == 'str':
            return v, True
    if n in ('logging.FileHandler', 'logging.handlers.RotatingFileHandler'):
        return argument(d, 0, 'filename'), True
    return None


def inner(v):
    """path of a pathlib object"""
    if type(v) is Term and v.op == 'ext':
        xs = [x for x in v.args[1:] if isinstance(x, V)]
        return xs[0] if len(xs) == 1 else (Term('ext', (Const('os.path.join'),) + tuple(xs)) if xs else Const('.'))
    return v


def run(rep):
    S = Session(rep)
    met = set()
    for p in run_all(S, rep, entries(S)) + run_all(S, rep, offline(S)):
        n_writes = 0
        for d in p.calls.all:
            w = writes(S, d)
            if w is None:
                continue
            path, sure = w
            at = '%s %s' % (S.loc(d['node']), stack_of(d))
            met.add(node_key(S, d['node']))
            n_writes += 1
            if 'program' not in p.name:
                rep.decide(False if sure else None, '%s: writes no file' % p.name, at, '%s is called with %r' % (d['name'], path))
                continue
            if path is None:
                rep.undecided('%s: file written' % p.name, at, 'path unknown')
                continue
            path = d['st'].simp(path)
            check_path(rep, '%s: file written' % p.name, at, path)
            rep.count('written paths examined')
        if 'program' in p.name:
            rep.decide(True if n_writes else None, '%s: saves its result' % p.name, '', 'no file written')
        elif not n_writes:
            rep.ok('%s: writes no file' % p.name)
        if 'with file name' in p.name and not p.out.dead:
            v = p.out.value
            if type(v) is Tup and len(v.items) == 2:
                check_path(rep, '%s: the name handed out' % p.name, S.loc_of(S.g(CHECK, 'render_template')), p.out.st.simp(v.items[0]))
    accounted(S, rep, met)


def accounted(S, rep, met):
    for r in external_names(S):
        c = r.call
        if c is None:
            continue
        n = r.name
        wr = None
        if n in OPENERS:
            m = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == 'mode'), None)
            if m is None or isinstance(m, ast.Constant) and not set(str(m.value)) & set('wax+'):
                continue
            wr = True if isinstance(m, ast.Constant) else None
        elif n in WRITERS and (not n.startswith('.') or c.args or c.keywords):
            wr = True
        elif '.' in n and '.' + n.rsplit('.', 1)[1] in WRITERS and n.startswith('.') and (c.args or c.keywords):
            wr = True
        elif n in ('.write_text', '.write_bytes'):
            wr = True
        if wr is not None or n in OPENERS:
            seen = (r.path, c.lineno) in met or (r.path, r.node.lineno) in met
            rep.decide(True if seen else (False if wr else None), 'writing at %s is that of a program' % r.where(), r.where(),
                       '%s is called outside the programs\' saving' % n)


def check_path(rep, n, at, v):
    for what, ch in (('a slash', '/'), ('a backslash', '\\')):
        r, why = free(v, ch)
        rep.decide(r, '%s has no directory part (%s)' % (n, what), at, why or 'it is %r' % (v,))
    if type(v) is Const and v.v in ('', '.', '..'):
        rep.bad(n, at, 'it is %r' % v.v)


SAME = ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'casefold', 'title', 'str', 'slice', 'fmt', 'index', 'zfill')


def free(v, ch):
    """the text has no ch: True / False / None, reason"""
    t = type(v)
    if t is Const:
        return (ch not in str(v.v)), 'it contains %r' % ch
    if t is Ite:
        return both([free(v.a, ch), free(v.b, ch)])
    if t is Tup:
        return both([free(x, ch) for x in v.items])
    if t is not Term:
        return None, ''
    if v.ty in ('int', 'float', 'bool'):
        return True, ''
    op = v.op
    if op == 'leaf':
        k = v.args[1] if len(v.args) > 1 else ''
        return (True, '') if k in ('dec', 'int') else (False, 'text %r may contain %r' % (v.args[0], ch))
    if op == 'cat':
        return both([free(x, ch) for x in v.args])
    if op in ('re.sub', 'sub'):
        pat, repl, subj = v.args[:3]
        if type(pat) is Const and type(repl) is Const:
            try:
                gone = ch not in re.sub(pat.v, repl.v, 'a%sb%sc' % (ch, ch * 2)) and ch not in re.sub(pat.v, repl.v, ch)
            except re.error:
                return None, ''
            if gone and len(v.args) == 3:
                return True, ''
            if len(v.args) > 3 and gone:
                n = [x for x in v.args[3:] if type(x) is Const or type(x) is Tup and type(x.items[0]) is Const and x.items[0].v == 'count']
                n = n[0].items[1] if n and type(n[0]) is Tup else (n[0] if n else None)
                if n is None or type(n) is not Const or n.v == 0:
                    return (True, '') if type(n) is Const or n is None else (None, '')
                r, why = free(subj, ch)
                return (r, why and '%s and only %r of them are taken out' % (why, n.v))
            if ch in repl.v:
                return False, 'the substitution puts %r in' % ch
            r, why = free(subj, ch)
            return r, why
        return None, ''
    op = op[2:] if op.startswith('m:') else op
    if op == 'replace':
        x, a, b = v.args[:3]
        if type(b) is Const and ch in str(b.v):
            return None, ''
        if type(a) is Const and a.v == ch and len(v.args) == 3:
            return True, ''
        return free(x, ch)
    if op == 'ext':
        n = v.args[0].v if type(v.args[0]) is Const else v.args[0]
        xs = [x for x in v.args[1:] if isinstance(x, V)]
        if n in ('os.path.basename', 'ntpath.basename'):
            return (True, '') if ch == '/' or n == 'ntpath.basename' else free(xs[0], ch)
        if n in ('os.path.join', 'posixpath.join'):
            parts_ = [x for x in xs if not (type(x) is Const and x.v == '')]
            if len(parts_) > 1:
                return (False, 'it is joined to a directory') if ch == '/' else both([free(x, ch) for x in parts_])
            return free(parts_[0], ch) if parts_ else (True, '')
        if n in ('urllib.parse.unquote', 'urllib.parse.unquote_plus', 'html.unescape', 'os.path.normpath', 'os.path.dirname'):
            r, why = free(xs[0], ch)
            return (False, '%s of a text may contain %r' % (n, ch)) if leaves_of(xs[0]) else (r, why)
        if n in ('os.path.abspath', 'os.path.realpath', 'os.getcwd', 'tempfile.mkdtemp', 'tempfile.gettempdir', 'os.path.expanduser'):
            return False, 'it is a path with directories'
        if n in ('urllib.parse.quote', 'urllib.parse.quote_plus'):
            safe = [x for x in v.args[1:] if type(x) is Tup and type(x.items[0]) is Const and x.items[0].v == 'safe']
            if ch == '/' and n == 'urllib.parse.quote' and not safe and len(xs) == 1:
                return free(xs[0], ch)
            if safe or len(xs) > 1:
                return None, ''
            return True, ''
        if leaves_of(v) and n in ('urllib.parse.urlparse', 'urllib.parse.parse_qs'):
            return False, 'a part of the link may contain %r' % ch
        return None, ''
    if op in ('item', 'attr', 'elem'):
        b = v
        while type(b) is Term and b.op in ('item', 'attr', 'elem'):
            b = b.args[0]
        return free(b, ch) if type(b) is Term and b.op in ('ext', 'leaf') else (None, '')
    if op == 'index' and type(v.args[0]) in (Tup, Const):
        return free(v.args[0], ch)
    if op in SAME and v.args and isinstance(v.args[0], V):
        return free(v.args[0], ch)
    return None, ''


def both(rs):
    bad = [r for r in rs if r[0] is False]
    if bad:
        return bad[0]
    return (True, '') if all(r[0] is True for r in rs) else (None, '')
