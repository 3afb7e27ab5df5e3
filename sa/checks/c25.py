"""C25: nothing in a record or link is executed; results are reproducible."""
from ..programs import *
from ..views import *

RULE = ('Effect analysis: (1) every use, anywhere in the package, of a function that evaluates text as code, unpickles or starts a process has to have '
        'constant arguments, (2) no use of random numbers, the clock, the environment or object identities lies outside the win-rate simulation, and '
        '(3) every other entry point, interpreted abstractly with a symbolic link, names and file path, meets none of them and none with an '
        'argument that comes from its input.')

ASSUMPTIONS = ['text is evaluated, unpickled or given to a shell only by the named functions of the standard library, pandas, numpy and jinja2']

EVALUATES = ('eval', 'exec', 'compile', '__import__', 'execfile', 'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__',
             'pickle.load', 'pickle.loads', 'pickle.Unpickler', 'cPickle.loads', 'cPickle.load', '_pickle.loads', '_pickle.load', 'dill.loads', 'dill.load',
             'cloudpickle.loads', 'cloudpickle.load', 'joblib.load', 'marshal.load', 'marshal.loads', 'shelve.open', 'yaml.load', 'yaml.unsafe_load',
             'yaml.full_load', 'yaml.load_all', 'jsonpickle.decode', 'pandas.read_pickle', 'pandas.eval', 'runpy.run_path', 'runpy.run_module',
             'importlib.import_module', 'importlib.__import__', 'code.interact', 'code.InteractiveInterpreter', 'imp.load_source', 'timeit.timeit',
             'numexpr.evaluate', 'sympy.sympify', 'jinja2.Template', 'types.FunctionType', 'types.CodeType')
SHELL = ('os.system', 'os.popen', 'os.startfile', 'commands.getoutput', 'pty.spawn', 'webbrowser.open')
SHELL_PREFIX = ('subprocess.', 'os.exec', 'os.spawn', 'os.posix_spawn', 'popen2.', 'ctypes.')
QUIET = ('subprocess.PIPE', 'subprocess.DEVNULL', 'subprocess.STDOUT', 'subprocess.CalledProcessError', 'subprocess.TimeoutExpired', 'subprocess.SubprocessError')
METHODS = ('.eval', '.query', '.from_string')
CHANCE_PREFIX = ('random.', 'numpy.random.', 'secrets.', 'uuid.uuid')
CLOCK = ('time.time', 'time.time_ns', 'time.localtime', 'time.gmtime', 'time.ctime', 'time.asctime', 'time.strftime', 'time.perf_counter', 'time.perf_counter_ns',
         'time.monotonic', 'time.monotonic_ns', 'time.process_time', 'time.clock', 'datetime.datetime.now', 'datetime.datetime.today',
         'datetime.datetime.utcnow', 'datetime.date.today', 'pandas.Timestamp.now', 'pandas.Timestamp.today', 'pandas.Timestamp.utcnow', 'timeit.default_timer')
ENVIRONMENT = ('os.environ', 'os.getenv', 'os.environb', 'os.getpid', 'os.getppid', 'os.getlogin', 'os.getuid', 'os.urandom', 'os.getrandom', 'os.times',
               'os.cpu_count', 'os.getloadavg', 'socket.gethostname', 'platform.node', 'platform.system', 'platform.platform', 'getpass.getuser', 'os.uname',
               'locale.getlocale', 'locale.getdefaultlocale', 'threading.get_ident', 'tempfile.mktemp', 'tempfile.mkdtemp', 'tempfile.mkstemp', 'os.listdir',
               'os.scandir', 'glob.glob')
IDENTITY = ('id', 'builtins.id', 'object.__hash__', 'object.__repr__')
SIMULATION = ('mahjong.win_rate_demo', 'mahjong.container.distribution')


def evaluates(n):
    return n in EVALUATES


def shell(n):
    return n in SHELL or n.startswith(SHELL_PREFIX) and n not in QUIET


def chance(n):
    if n.startswith(CHANCE_PREFIX) or n in ('random', 'secrets'):
        return 'random numbers are used'
    if n in CLOCK:
        return 'the clock is read'
    if n in ENVIRONMENT or n.startswith(('os.environ.',)):
        return 'the environment is read'
    if n in IDENTITY:
        return 'object identities are used'
    return None


def run(rep):
    S = Session(rep)
    met = {}
    for p in run_all(S, rep, entries(S)) + run_all(S, rep, offline(S)) + run_all(S, rep, extra(S)):
        clean = True
        for d in p.calls.all:
            n = d['name']
            at = '%s %s' % (S.loc(d['node']), stack_of(d))
            if evaluates(n) or shell(n) or n in METHODS:
                if n in METHODS and not outside(d.get('recv')):
                    continue
                vs = [d['st'].simp(a) for a in d['args'] if isinstance(a, V)] + [d['st'].simp(a) for a in d['kwargs'].values() if isinstance(a, V)]
                k = node_key(S, d['node'])
                from_input = [x for v in vs for x in leaves_of(v)]
                if from_input:
                    rep.bad('%s: executes nothing of its input' % p.name, at, '%s is given %r' % (n, vs))
                    clean = False
                met.setdefault(k, []).append(all(type(v) is Const for v in vs))
            why = chance(n)
            if why:
                rep.bad('%s: reproducible' % p.name, at, '%s: %s' % (n, why))
                clean = False
        if clean:
            rep.ok('%s: executes nothing, reproducible' % p.name)
    for r in external_names(S):
        n = r.name
        if evaluates(n) or shell(n):
            c = r.call
            if c is None:
                rep.decide(None, '%s at %s' % (n, r.where()), r.where(), 'passed around')
                continue
            xs = list(c.args) + [k.value for k in c.keywords]
            const = bool(xs or not evaluates(n)) and all(constant(S, r, x) for x in xs)
            seen = met.get((r.path, c.lineno)) or met.get((r.path, r.node.lineno))
            if const or seen and all(seen):
                rep.ok('%s at %s has constant arguments' % (n, r.where()))
            else:
                rep.decide(False if evaluates(n) else (None if parameter_only(S, r, xs) and not seen else False), '%s at %s has constant arguments' % (n, r.where()), r.where(),
                           '%s is given %s' % (n, ', '.join(ast.unparse(x) for x in xs)))
        elif n == 'numpy.load' and r.call is not None:
            for k in r.call.keywords:
                if k.arg == 'allow_pickle':
                    rep.decide(isinstance(k.value, ast.Constant) and not k.value.value, 'numpy.load at %s' % r.where(), r.where(), 'unpickling is allowed')
        if n == 'hash' and r.call is not None:
            with open(S.I.files[r.mod], encoding='utf-8') as f:
                own = 'def __hash__' in f.read()
            rep.decide(True if own else False, 'hash at %s is that of a value class' % r.where(), r.where(), 'a hash decides a result')
        why = chance(n)
        if why and (r.call is not None or n.startswith('os.environ') or n in IDENTITY or n in CLOCK or n.startswith(CHANCE_PREFIX)):
            ok = r.mod in SIMULATION
            if n in ('random', 'secrets'):
                continue
            rep.decide(True if ok else (None if annotation(r) else False), '%s at %s belongs to the simulation' % (n, r.where()), r.where(),
                       '%s outside the win-rate simulation: %s' % (n, why))
    rep.decide(True, 'all names of the package looked at')


def annotation(r):
    return r.call is None and r.name.rsplit('.', 1)[-1][:1].isupper()


def outside(v):
    """a value made by a library"""
    return v is not None and (type(v) is Bi or bool(names_in(v)))


def enclosing(S, r):
    with open(S.I.files[r.mod], encoding='utf-8') as f:
        tree = ast.parse(f.read())
    best = None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n.lineno <= r.node.lineno <= n.end_lineno:
            if best is None or n.lineno >= best.lineno:
                best = n
    return tree, best


def constant(S, r, x):
    """the expression is a constant, or names something assigned constants only"""
    if isinstance(x, ast.Constant):
        return True
    if isinstance(x, (ast.List, ast.Tuple)):
        return all(constant(S, r, e) for e in x.elts)
    if isinstance(x, ast.BinOp):
        return constant(S, r, x.left) and constant(S, r, x.right)
    if isinstance(x, ast.IfExp):
        return constant(S, r, x.body) and constant(S, r, x.orelse)
    if isinstance(x, ast.Name):
        tree, fn = enclosing(S, r)
        for scope in ([fn] if fn else []) + [tree]:
            if isinstance(scope, (ast.FunctionDef, ast.Lambda)):
                a = scope.args
                if x.id in [p.arg for p in a.args + a.kwonlyargs + a.posonlyargs] + [p.arg for p in (a.vararg, a.kwarg) if p]:
                    return False
            vals = [n.value for n in ast.walk(scope) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets)]
            if vals:
                return all(constant(S, r, v) for v in vals)
    return False


def parameter_only(S, r, xs):
    tree, fn = enclosing(S, r)
    if not isinstance(fn, ast.FunctionDef):
        return False
    names = {p.arg for p in fn.args.args + fn.args.kwonlyargs}
    return all(constant(S, r, x) or isinstance(x, ast.Name) and x.id in names for x in xs)


def extra(S):
    """reading saved texts and tables back"""
    text, value = sleaf('saved', 'text'), sleaf('state', 'text')
    out = []
    for n in ('norm_value_str', 'try_int', 'norm_empty'):
        if S.has(COMMAND, n):
            out.append((n, lambda I, s, n=n: I.call(s, S.g(COMMAND, n), [text], {}, None), []))
    out.append(('a table of commands', lambda I, s: I.call_method(s, S.g(COMMAND, 'GameCommand'), 'read_clean_csv', [text], {}, None), []))
    out.append(('a table of states', lambda I, s: I.call_method(s, S.g(EXEC, 'GameExecutor'), 'read_clean_csv', [text], {}, None), []))
    for p in properties(S):
        out.append(('saved text of %r' % p, lambda I, s, p=p: I.call_method(s, S.g(PM, 'prop_manager'), 'from_str', [text], {'prop': p.ref}, None), []))

        def whole(I, s, p=p):
            r = I.call(s, S.g(COMMAND, '_Game_command'), [], dict(
                timestamp=Const(None), event=Const('draw'), scope=Const(p.scope), sub_scope_id=Const('1'), property=Const(p.name),
                update_method=Const('REPLACE'), value=text, state=value), None)
            return I.call_method(s, S.g(COMMAND, 'GameCommand'), 'from_record', [r], {}, None)
        out.append(('saved command about %r' % p, whole, []))
    return out
