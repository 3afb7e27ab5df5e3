"""C13: every command fits its property's declared type and can be executed."""
from ..views import *
from ..finite import same_value
from ..recs import *
from ..universe import frozen, same_frozen, member
from ..world import *
from . import c11

RULE = ('Abstract interpretation of the type table and of the whole translation. Each property: its declared type folds, the type groups of its view class '
        'contain it once, the table converts samples of the type to text and back and defines the default, adding and removing the commands use. Each '
        'kind of record (the symbolic records of C11: all seats, 3 and 4 players, all calls, results and game types): the kind of value every produced '
        'command carries - number, flag, text, list of tile texts, list of lists - is inferred and has to be the one declared; its seat is one the scope has; '
        'and the interpreter is evaluated on each (property, update, kind of value) with an old value of the declared type: it may not always raise and '
        'has to give a value of the declared type.')

ASSUMPTIONS = ['values inferred from the symbolic records stand for all values of those fields']

NUMERIC = ('index', 'score', 'int')
LISTS = ('tiles', 'melds', 'list')


def fits(S, st, v, typ, depth=0):
    """does the value fit the declared type: True, False, or None when unknown"""
    if isinstance(v, V):
        v = st.simp(v)
    if type(v) is Ite:
        rs = [fits(S, st, x, typ, depth) for g, x in alts(st, v) if feasible(g) is not False]
        return False if False in rs else None if None in rs else True
    if type(v) is Const:
        x = v.v
        if typ in NUMERIC:
            return type(x) is int
        if typ == 'float':
            return type(x) in (int, float)
        if typ == 'bool':
            return type(x) is bool
        if typ == 'str':
            return type(x) is str or x is None           # a text may be missing
        return False
    if type(v) is Tup:
        return False
    if type(v) is Ref:
        k = m_coll.kind_of(S.I, st, v)
        if k is None:
            return None
        if k != 'list':
            return False
        if typ not in LISTS:
            return False
        es = elements(S, st, v)
        if es is None:
            return None
        if typ == 'list':
            return True
        rs = [fits(S, st, x, 'text' if typ == 'tiles' else 'tiles') if typ == 'melds' else tile_like(st, x) for _, x, _ in es]
        return False if False in rs else None if None in rs else True
    ty = getattr(v, 'ty', None)
    if ty is None:
        return None
    if typ in NUMERIC:
        return ty == 'int'
    if typ == 'float':
        return ty in ('int', 'float')
    if typ == 'bool':
        return ty == 'bool'
    if typ == 'str':
        return ty == 'str'
    return False if ty in ('int', 'float', 'bool', 'str') else None


def tile_like(st, v):
    v = st.simp(v)
    if type(v) is Const:
        x = v.v
        return type(x) is str and len(x) == 2 and x[0].isdigit() and x[1] in 'mpsz'
    if type(v) is Ite:
        rs = [tile_like(st, x) for _, x in alts(st, v)]
        return False if False in rs else None if None in rs else True
    ty = getattr(v, 'ty', None)
    return None if ty is None else ty == 'str'


def kind(S, st, v):
    """the kind of a value, for reports and for telling cases apart"""
    if type(v) is Const:
        return type(v.v).__name__
    if type(v) is Ref:
        k = m_coll.kind_of(S.I, st, v) or 'object'
        es = elements(S, st, v) if k == 'list' else None
        if es:
            return 'list of ' + '/'.join(sorted({kind(S, st, st.simp(x)) for _, x, _ in es}))
        return k if es is None else 'empty list'
    if type(v) is Ite:
        return '/'.join(sorted({kind(S, st, x) for _, x in alts(st, v)}))
    return getattr(v, 'ty', None) or 'unknown'


OLD = {'index': 3, 'score': 250, 'int': 1, 'float': 1.5, 'bool': False, 'str': 'x'}


def make(I, s, x):
    if isinstance(x, list):
        return I.new_list(s, [make(I, s, y) for y in x])
    return x if isinstance(x, V) else Const(x)


def run(rep):
    S = Session(rep, steps=8000000)
    S.g(*c11.TC)
    S.g(c11.EV, 'TenhouEvent')
    props = properties(S)
    rep.count('properties', len(props))
    with rep.group('types'):
        for p in props:
            groups(S, rep, p)
            texts(S, rep, p)
    types = {(p.scope, p.name): p.type for p in props}
    pick = list(c11.scenarios())
    rep.parallel(pick, lambda x: one(rep, S, types, *x))


def groups(S, rep, p):
    at = S.loc_of(p.cls)
    rep.decide(p.type is not None, '%s: a declared type' % p, at, 'its type is not found')
    gs = []
    unknown = False
    for n, g in members(S, p.cls).items():
        if not n.startswith('type__'):
            continue
        o = S.run(lambda I, s: m_coll.contains(I, s, g, p.ref, None), S.state())
        v = o.value
        if isinstance(v, bool):
            v = Const(v)
        if type(v) is not Const:
            unknown = True
        elif v.v:
            gs.append(n[6:])
    rep.decide(None if unknown else len(gs) == 1, '%s: one type group' % p, at, 'it is in the groups %s' % gs)
    table = members(S, S.g(FORMAT, 'ViewType'))
    for n in gs:
        rep.decide(n in table, '%s: type %s in the type table' % (p, n), at, 'there is no such type')


def samples(typ):
    return {'index': [leaf('v', 0, 200), 0, 7], 'score': [leaf('w', -500, 1000), -100], 'int': [leaf('v', 0, 200), 1], 'float': [Term('x', (), 'float'), -20.5, 0.0],
            'bool': [True, False, Term('f', (), 'bool')], 'str': ['x', '', sleaf('t', 'text')],
            'tiles': [[], ['0m', '7z'], [sleaf('t', 'text')]], 'melds': [[], [['1m', '2m', '3m']]], 'list': [[], [True, False], ['x'], [sleaf('t', 'text')]]}.get(typ, [])


def texts(S, rep, p):
    pm = S.g(PM, 'prop_manager')
    at = S.loc_of(S.g(PM, 'PropertyTypeManager'))
    for x in samples(p.type):
        n = '%s as text and back' % p
        rep.count('conversions')
        o = S.run(lambda I, s: I.call_method(s, pm, 'to_str', [make(I, s, x)], {'prop': p.ref}, None), S.state())
        if o.dead:
            rep.decide(False, '%s: to text' % p, at, 'always raises %s' % [a for a, _ in S.exc(o)])
            continue
        v = o.value
        ty = type(v.v).__name__ if type(v) is Const else getattr(v, 'ty', None)
        rep.decide(None if ty is None else ty == 'str', '%s: to text' % p, at, 'it gives %r for %r' % (v, x))
        q = S.run(lambda I, s: I.call_method(s, pm, 'from_str', [v], {'prop': p.ref}, None), o.st)
        if q.dead:
            rep.decide(False, n, at, 'always raises %s' % [a for a, _ in S.exc(q)])
            continue
        try:
            r = same_frozen(frozen(S, q.st, q.value), frozen(S, q.st, make(S.I, q.st, x)))
        except Exception:
            r = None
        rep.decide(r, n, at, 'it gives %r for %r' % (q.value, x))


def one(rep, S, types, name, build):
    I = S.I
    st = S.state()
    evs = build(I, st)
    tc = S.g(*c11.TC)
    where = S.loc_of(tc)
    mk = Makers(S)
    o = S.run(lambda I, s: I.call(s, tc, [c11.record(S, s, [e for e, _ in evs])], {}, None), st, intercepts=STUBS, listen=mk)
    rep.count('scenarios')
    rep.count('events', len(evs))
    if o.dead:
        rep.decide(False, '%s: converted' % name, where, 'no command can be executed: it raises %s' % [n for n, _ in S.exc(o)])
        return
    cmds = commands(S, o.st, o.value)
    if cmds is None:
        rep.undecided('%s: commands' % name, where, 'the list of commands is not definite')
        return
    seen = set()
    for c in cmds:
        st = c.st
        prop, up = c.name('property'), c.name('update_method')
        m = member(st, c.property)
        scope = c11.scope_of(m[0]) if type(m) is tuple else None
        at = mk.where(c) or where
        if prop is None or up is None or scope is None:
            rep.undecided('%s: a command' % name, at, 'its property or update is not definite')
            continue
        typ = types.get((scope, prop))
        label = '%s: %s %s.%s' % (name, up, scope, prop)
        sub = c.sub_scope_id
        if type(sub) is Const:
            ok = type(sub.v) is int and 0 <= sub.v <= 3 if scope == 'player' else sub.v == 'all'
            rep.decide(ok, label + ': seat', at, 'it is addressed to %r' % (sub.v,))
        if typ is None:
            continue                                       # reported with the types
        rep.count('commands')
        if up != 'RESET_DEFAULT':
            f = fits(S, st, c.value, typ)
            rep.decide(f, '%s: value' % label, at, 'the property is declared %s, the value is %s' % (typ, kind(S, st, c.value)))
            if f is not True:
                continue
        key = (scope, prop, up, kind(S, st, c.value))
        if key in seen:
            continue
        seen.add(key)
        execute(S, rep, label, at, st, c, typ)


def execute(S, rep, label, at, st, c, typ):
    """the interpreter on the command, with an old value of the declared type"""
    EX = 'mahjong.record.universe.interpreter'
    up = c.name('update_method')

    def old(I, s):
        if typ not in LISTS:
            return Const(OLD[typ])
        if up != 'REMOVE':
            return I.new_list(s, [])
        return I.new_list(s, [x for _, x, _ in elements(S, s, c.value)])
    o = S.run(lambda I, s: I.call(s, S.g(EX, 'execute_new_value'), [c.obj, old(I, s)], {}, None), st.copy())
    rep.count('commands executed')
    if o.dead:
        rep.decide(False, label + ': executed', at, 'always raises %s' % [a for a, _ in S.exc(o)])
        return
    r = fits(S, o.st, o.value, typ)
    if up == 'RESET_DEFAULT' and r is None:
        r = None
    rep.decide(r, label + ': executed', at, 'the property is declared %s, it becomes %s' % (typ, kind(S, o.st, o.value)))
