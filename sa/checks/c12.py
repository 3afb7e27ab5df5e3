"""C12: saving and loading commands puts every field back where it came from."""
from ..views import *
from ..finite import same_value
from ..recs import *
from ..universe import frozen, same_frozen

RULE = ('Abstract interpretation of the conversions of a command: for every property of every scope, every update kind, every event type (and none), '
        'seats as numbers and as text, with symbolic and zero-like values and states of the declared type, the fields of the saved form have to be '
        'the names and texts of the command\'s own fields, and loading that form - as saved, and as a table program hands it back (numbers, missing '
        'entries) - has to give every field back. Texts made by json are inverted symbolically, so unknown values are covered as such.')

ASSUMPTIONS = ['json.loads inverts json.dumps on texts, numbers, flags, nothing and lists of them',
               'a table program hands an empty cell back as not-a-number and reads whole columns of numbers and flags as such']

NAN = float('nan')


class L:
    """a list in a wanted value"""

    def __init__(self, *xs):
        self.xs = xs


def build(I, s, v):
    if isinstance(v, L):
        return I.new_list(s, [build(I, s, x) for x in v.xs])
    return v if isinstance(v, V) else Const(v)


def samples(typ):
    """(name, value) of the declared type"""
    if typ in ('index', 'score', 'int'):
        return [('any number', leaf('v', -100000, 100000)), ('zero', 0), ('a negative', -300)]
    if typ == 'bool':
        return [('any flag', Term('flag', (), 'bool')), ('no', False), ('yes', True)]
    if typ == 'float':
        return [('any number', Term('someval', (), 'float')), ('zero', 0.0), ('a half', -20.5)]
    if typ == 'str':
        return [('any text', sleaf('text', 'text')), ('an empty text', ''), ('digits', '12'), ('a word', 'None'), ('not ascii', '鳳')]
    if typ in ('tiles', 'list', 'melds'):
        x = [('an empty list', L()), ('tiles', L('0m', sleaf('tile', 'text'), '7z')), ('numbers and flags', L(0, False, leaf('n', 0, 9)))]
        return x + [('lists', L(L('1m', sleaf('tile', 'text')), L()))]
    return [('any number', leaf('v', -100, 100)), ('no', False)]


def run(rep):
    S = Session(rep)
    props = properties(S)
    rep.count('properties', len(props))
    rep.parallel(props, lambda p: prop(S, rep, p), limit=120)
    with rep.group('properties'):
        at = S.loc_of(S.g(COMMAND, 'GameCommand'))
        rep.decide(len({(p.scope, p.name) for p in props}) == len(props), 'every property has a name of its own', at, '')
    kinds(S, rep, props)
    rows(S, rep, props)


def command(S, I, s, p, u, sub, value, state, event, time):
    kw = {'prop': p.ref, 'update': u, 'sub_scope': Const(sub), 'value': build(I, s, value), 'state': build(I, s, state),
          'event': event if event is not None else NONE, 'timestamp': Const(time)}
    return I.call(s, S.g(COMMAND, 'GameCommand'), [], kw, None)


FIELDS = ('timestamp', 'event', 'scope', 'sub_scope_id', 'property', 'update_method', 'value', 'state')


def prop(S, rep, p):
    ups = members(S, S.g(FORMAT, 'Update'))
    up = ups.get('REPLACE') or sorted(ups.items())[0][1]
    vs = samples(p.type)
    none = ('nothing', None)
    # values and states
    for i, (vn, v) in enumerate(vs + [none]):
        for j, (sn, s_) in enumerate(vs + [none]):
            if i and j and i != j and vn != 'nothing' and sn != 'nothing':
                continue
            if vn == sn and vn.startswith('any') and isinstance(v, V):
                s_ = other(v)
            one(S, rep, p, '%s, value %s, state %s' % (p, vn, sn), up, 'REPLACE', 'all' if p.scope != 'player' else 2, v, s_, None, None, None)
    # as a table program hands it back
    cells(S, rep, p, up)
    # kinds
    evs = members(S, S.g(FORMAT, 'EventType'))
    for un, u in sorted(ups.items()):
        one(S, rep, p, '%s, update %s' % (p, un), u, un, 0 if p.scope == 'player' else 'all', vs[0][1], None, None, None, 0)
    for en, e in sorted(evs.items()):
        one(S, rep, p, '%s, event %s' % (p, en), up, 'REPLACE', 1 if p.scope == 'player' else 'all', vs[0][1], vs[-1][1], e, en, 5)
    for sub in (0, 1, 2, 3, 'all'):
        one(S, rep, p, '%s, seat %s' % (p, sub), up, 'REPLACE', sub, vs[0][1], vs[0][1], None, None, None)


def other(v):
    if v.ty == 'float':
        return Term('otherval', (), 'float')
    if v.ty == 'bool':
        return Term('otherflag', (), 'bool')
    return leaf('w', -100000, 100000) if v.ty == 'int' else sleaf('othertext', 'text')


def fail(S, rep, n, at, o):
    names = sorted({str(x) for x, _ in S.exc(o)})
    if o.dead:
        rep.decide(False if names else None, n, at, 'always raises %s' % ', '.join(names))
        return True
    return False


def value_same(S, st, a, b):
    if a is None or b is None:
        return None
    try:
        return same_frozen(frozen(S, st, a), frozen(S, st, b))
    except Exception:
        return None


def one(S, rep, p, n, up, un, sub, value, state, event, en, time):
    at = S.loc_of(S.g(COMMAND, 'GameCommand'))
    box = {}

    def f(I, s):
        c = command(S, I, s, p, up, sub, value, state, event, time)
        box['c'] = c
        r = I.call_method(s, c, 'to_record', [], {}, None)
        raw = I.call_method(s, c, 'to_raw_record', [], {}, None)
        return Tup((r, raw))
    o = S.run(f, S.state())
    rep.count('commands saved')
    if fail(S, rep, n + ': saved', at, o):
        return
    st = o.st
    r, raw = o.value.items
    S2 = S
    get = lambda x, k: attr_(S2, st, x, k)
    want_v, want_s = build(S.I, st, value), build(S.I, st, state)
    texts = {'timestamp': Const(time), 'event': Const(en) if event is not None else NONE, 'scope': Const(p.scope), 'sub_scope_id': Const(sub),
             'property': Const(p.name), 'update_method': Const(un)}
    for k, w in texts.items():
        g = get(r, k)
        rep.decide(None if g is None else same(g, w), '%s: saved %s' % (n, k), at, 'it is %r instead of %r' % (g, w))
    for k, w in (('value', want_v), ('state', want_s)):
        g = get(r, k)
        if p.type == 'str' and w == NONE:
            continue                                       # how a missing text is written is open; that it is read back is not
        t = text_of(S, st, p, w)
        rep.decide(None if g is None or t is None else same(g, t), '%s: saved %s' % (n, k), at, 'it is %r instead of %r' % (g, t))
    raws = dict(texts, event=event if event is not None else NONE, property=p.ref, update_method=up)
    scope = members(S, S.g(FORMAT, 'ViewScope')).get(p.scope)
    raws['scope'] = scope
    for k, w in list(raws.items()) + [('value', want_v), ('state', want_s)]:
        g = get(raw, k)
        rep.decide(value_same(S, st, g, w) if k in ('value', 'state') else None if g is None or w is None else same(g, w), '%s: raw %s' % (n, k), at,
                   'it is %r instead of %r' % (g, w))
    for how, x in (('from_record', r), ('from_raw_record', raw)):
        q = S.run(lambda I, s: I.call_method(s, S.g(COMMAND, 'GameCommand'), how, [x], {}, None), st.copy())
        rep.count('commands loaded')
        m = '%s: %s' % (n, how)
        if fail(S, rep, m, at, q):
            continue
        loaded(S, rep, m, at, q.st, q.value, p, up, sub, want_v, want_s, event, time)


def loaded(S, rep, m, at, st, c, p, up, sub, want_v, want_s, event, time):
    want = {'event': event if event is not None else NONE, 'timestamp': Const(time), 'sub_scope_id': Const(sub), 'property': p.ref, 'update_method': up}
    for k, w in want.items():
        g = attr_(S, st, c, k)
        rep.decide(None if g is None else same(g, w), '%s: %s' % (m, k), at, 'it is %r instead of %r' % (g, w))
    g = attr_(S, st, attr_(S, st, c, 'prop'), 'view_property') if attr_(S, st, c, 'prop') is not None else None
    rep.decide(None if g is None else same(g, p.ref), m + ': property addressed', at, 'it is %r' % (g,))
    g = attr_(S, st, attr_(S, st, c, 'prop'), 'update_method') if attr_(S, st, c, 'prop') is not None else None
    rep.decide(None if g is None else same(g, up), m + ': update addressed', at, 'it is %r' % (g,))
    for k, w in (('value', want_v), ('state', want_s)):
        g = attr_(S, st, c, k)
        rep.decide(value_same(S, st, g, w), '%s: %s' % (m, k), at, 'it is %s instead of %s' % (show(S, st, g), show(S, st, w)))


def show(S, st, v):
    if v is None:
        return '?'
    try:
        return repr(plain(S, st, v))
    except NotPlain:
        return repr(v)[:200]


def same(a, b):
    if type(a) is Const and type(b) is Const:
        return a == b
    return same_value(a, b)


def attr_(S, st, v, k):
    v = st.simp(v) if isinstance(v, V) else v
    if v is None:
        return None
    o = S.run(lambda I, s: I.get_attr(s, v, k, None), st.copy())
    return o.value if not o.dead and isinstance(o.value, V) else None


def text_of(S, st, p, w):
    """the text form of a value: json, or the text itself, by the declared type"""
    if p.type == 'str':
        return w
    o = S.run(lambda I, s: I.call(s, Bi('json.dumps'), [w], {}, None), st.copy())
    return None if o.dead else o.value


# ---- what comes back from a table

def cells(S, rep, p, up):
    """(cell as read back, value meant)"""
    at = S.loc_of(S.g(COMMAND, 'GameCommand'))
    cs = [('a missing entry', NAN, None)]
    if p.type in ('index', 'score', 'int'):
        cs += [('a text of digits', '25000', 25000), ('a number', 25000, 25000), ('zero', 0, 0), ('a text of zero', '0', 0), ('null', 'null', None), ('a negative', '-100', -100)]
    elif p.type == 'bool':
        cs += [('true', 'true', True), ('false', 'false', False), ('a flag', True, True), ('a flag not set', False, False)]
    elif p.type == 'float':
        cs += [('a text', '-20.5', -20.5), ('a number', 0.0, 0.0), ('a number', 51.1, 51.1)]
    elif p.type == 'str':
        cs += [('a text', 'abc', 'abc'), ('a number', 25, '25')]
    else:
        cs += [('an empty list', '[]', L()), ('a list', '["0m", "1z"]', L('0m', '1z')), ('lists', '[["0m"], []]', L(L('0m'), L()))]
    tuples = S.g(COMMAND, '_Game_command') if S.has(COMMAND, '_Game_command') else None
    if tuples is None:
        rep.undecided('%s: rows' % p, at, 'no row type')
        return
    un = member_name(S, S.state(), up)
    # the other columns
    evs = sorted(members(S, S.g(FORMAT, 'EventType')).items())
    seats = [('the seat %r' % (x,), 'sub_scope_id', x, Const(int(x))) for x in ('0', '1', '2', '3', 0, 3)] if p.scope == 'player' else []
    for cn, field, cell, w in seats + [('the time %d' % x, 'timestamp', x, Const(x)) for x in (0, 7)] + [('the event %s' % k, 'event', k, v) for k, v in evs[:1] + evs[-1:]]:
        row = dict(timestamp=NAN, event=NAN, scope=p.scope, sub_scope_id='2' if p.scope == 'player' else 'all', property=p.name, update_method=un,
                   value=NAN, state=NAN)
        row[field] = cell

        def f(I, s):
            r = I.call(s, tuples, [], {k: Const(v) for k, v in row.items()}, None)
            return I.call_method(s, S.g(COMMAND, 'GameCommand'), 'from_record', [r], {}, None)
        o = S.run(f, S.state())
        n = '%s, %s read' % (p, cn)
        rep.count('rows loaded')
        if fail(S, rep, n, at, o):
            continue
        g = attr_(S, o.st, o.value, field)
        rep.decide(None if g is None else same(g, w), n, at, 'it is %r instead of %r' % (g, w))
    for cn, cell, w in cs:
        for where in ('value', 'state'):
            row = dict(timestamp=NAN, event=NAN, scope=p.scope, sub_scope_id='2' if p.scope == 'player' else 'all', property=p.name, update_method=un,
                       value=NAN, state=NAN)
            row[where] = cell

            def f(I, s):
                r = I.call(s, tuples, [], {k: Const(v) for k, v in row.items()}, None)
                return I.call_method(s, S.g(COMMAND, 'GameCommand'), 'from_record', [r], {}, None)
            o = S.run(f, S.state())
            n = '%s, %s read as %s' % (p, where, cn)
            rep.count('rows loaded')
            if fail(S, rep, n, at, o):
                continue
            st = o.st
            for k, x in (('value', w if where == 'value' else None), ('state', w if where == 'state' else None)):
                g = attr_(S, st, o.value, k)
                rep.decide(value_same(S, st, g, build(S.I, st, x)), '%s: %s' % (n, k), at, 'it is %s instead of %s' % (show(S, st, g), show(S, st, build(S.I, st, x))))
            for k, x in (('timestamp', NONE), ('event', NONE), ('sub_scope_id', Const(2 if p.scope == 'player' else 'all')), ('property', p.ref), ('update_method', up)):
                g = attr_(S, st, o.value, k)
                rep.decide(None if g is None else same(g, x), '%s: %s' % (n, k), at, 'it is %r instead of %r' % (g, x))


def kinds(S, rep, props):
    """names are unique, and mean the same both ways"""
    at = S.loc_of(S.g(FORMAT, 'View'))
    for cls in ('Update', 'EventType', 'ViewScope'):
        ms = members(S, S.g(FORMAT, cls))
        for n, v in sorted(ms.items()):
            rep.decide(member_name(S, S.state(), v) == n, '%s.%s keeps its name' % (cls, n), at, 'its name is %s' % member_name(S, S.state(), v))


ROW = '''
class Row:
    """a row of a table: read by name or by a list of names"""
    def __init__(self, cells):
        self.cells = dict(cells)

    def __getitem__(self, name):
        if isinstance(name, list):
            return Row([(n, self.cells[n]) for n in name])
        return self.cells[name]

    def __setitem__(self, name, value):
        self.cells[name] = value

    def keys(self):
        return list(self.cells)

    def copy(self):
        return Row(self.cells)

    def items(self):
        return list(self.cells.items())

    def to_dict(self):
        return dict(self.cells)

    def get(self, name, default=None):
        return self.cells.get(name, default)

    def __iter__(self):
        return iter(list(self.cells.values()))

    def __len__(self):
        return len(self.cells)
'''


def rows(S, rep, props):
    """cleaning a table, and making one"""
    at = S.loc_of(S.g(COMMAND, 'GameCommand'))
    up = members(S, S.g(FORMAT, 'Update'))
    ev = members(S, S.g(FORMAT, 'EventType'))
    first = {}
    for p in props:
        first.setdefault((p.scope, p.type), p)
    texts = {'index': ('0', 0), 'score': ('100', 100), 'int': ('0', 0), 'bool': ('false', False), 'float': ('0.5', 0.5), 'str': ('x', 'x'),
             'tiles': ('["0m"]', L('0m')), 'list': ('[]', L()), 'melds': ('[["0m"]]', L(L('0m')))}
    for p in first.values():
        t, w = texts.get(p.type, ('1', 1))

        def f(I, s):
            ns = S.define(I, s, ROW)
            row = [('Unnamed: 0', 7), ('timestamp', NAN), ('event', sorted(ev)[0]), ('scope', p.scope), ('sub_scope_id', '3' if p.scope == 'player' else 'all'),
                   ('property', p.name), ('update_method', 'REPLACE'), ('value', t), ('state', NAN)]
            r = I.call(s, ns['Row'], [I.new_list(s, [Tup((Const(k), Const(v))) for k, v in row])], {}, None)
            x = I.call_method(s, S.g(COMMAND, 'GameCommand'), 'pandas_columns_clean', [r], {}, None)
            return Tup([I.call_method(s, x, 'get', [Const(k)], {}, None) for k, _ in row])
        o = S.run(f, S.state())
        n = 'cleaning a row of %s' % p
        rep.count('rows cleaned')
        if fail(S, rep, n, at, o):
            continue
        want = [Const(7), NONE, ev[sorted(ev)[0]], members(S, S.g(FORMAT, 'ViewScope')).get(p.scope), Const(3 if p.scope == 'player' else 'all'), p.ref, up['REPLACE'],
                build(S.I, o.st, w), NONE]
        if type(o.value) is not Tup:
            rep.undecided(n, at, repr(o.value)[:100])
            continue
        for k, g, x in zip(('index',) + FIELDS, o.value.items, want):
            rep.decide(value_same(S, o.st, g, x) if k in ('value', 'state') else same(g, x), '%s: %s' % (n, k), at, 'it is %r instead of %r' % (g, x))
    # a table of commands
    p = next(x for x in props if x.scope == 'player' and x.type == 'index')
    for raw in (False, True):
        box = {}

        def table(I, s, a, k, node):
            box['rows'] = I.call(s, Bi('list'), a[:1], {}, node) if a else None
            return NotImplemented

        def f(I, s):
            cs = [command(S, I, s, p, up['REPLACE'], i, leaf('v%d' % i, 0, 9), i, None, None) for i in range(2)]
            I.call_method(s, S.g(COMMAND, 'GameCommand'), 'to_dataframe', [I.new_list(s, cs)], {'raw': Const(raw)} if raw else {}, None)
            rs = box.get('rows')
            if rs is None:
                return NONE
            return I.new_list(s, [Tup([I.get_attr(s, e.v, 'value', None), I.get_attr(s, e.v, 'state', None), I.get_attr(s, e.v, 'property', None)]) for e in I.entries(s, rs)])
        o = S.run(f, S.state(), intercepts={'ext:pandas.DataFrame': table})
        n = 'table of commands%s' % (' as they are' if raw else '')
        if fail(S, rep, n, at, o):
            continue
        es = seq(S, o.st, o.value) if type(o.value) is Ref else None
        if es is None:
            rep.undecided(n, at, '')
            continue
        rep.decide(len(es) == 2, n + ': a row each', at, '%d rows of 2' % len(es))
        for i, e in enumerate(es):
            v, s_, q = e.items
            w = leaf('v%d' % i, 0, 9)
            rep.decide(same(q, p.ref if raw else Const(p.name)), '%s: row %d property' % (n, i), at, repr(q))
            for k, g, x in (('value', v, w), ('state', s_, Const(i))):
                t = x if raw else text_of(S, o.st, p, x)
                rep.decide(same(g, t) if t is not None else None, '%s: row %d %s' % (n, i, k), at, 'it is %r instead of %r' % (g, t))
