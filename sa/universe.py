"""Universal commands and executor states as abstract values."""
from .world import *

FM = 'mahjong.record.universe.format'
CM = 'mahjong.record.universe.command'
VIEWS = {'record': 'RecordView', 'game': 'GameView', 'player': 'PlayerView'}
UPDATES = ('REPLACE', 'ADD', 'REMOVE', 'RESET_DEFAULT', 'ASSERT_EQUAL_OR_SET')

# the declared type of every property, as the universal format documents it
TYPES = {
    'record': {'player_count': 'index', 'play_level': 'str', 'has_aka_dora': 'bool', 'speed_up': 'bool', 'allow_tanyao_open': 'bool',
               'play_wind_count': 'index', 'show_discard_shadow': 'bool', 'seed': 'str', 'using_tiles': 'list'},
    'game': {'wind': 'index', 'round': 'index', 'sub_round': 'index', 'dora_indicators': 'tiles', 'richii_remain_scores': 'score', 'dealer': 'index',
             'nobody_win': 'bool', 'extra_reason': 'str'},
    'player': {'name': 'str', 'level': 'str', 'extra_level': 'float', 'hand': 'tiles', 'in_richii': 'bool', 'discard_tiles': 'tiles',
               'discard_from_hand': 'list', 'fixed_meld': 'melds', 'meld_public_tiles': 'tiles', 'score': 'score', 'bonus_tiles': 'tiles', 'round': 'index',
               'disconnected': 'bool', 'is_dealer': 'bool', 'is_win': 'bool', 'is_self_win': 'bool', 'is_discard_lose_game': 'bool', 'faans': 'list',
               'rank': 'int', 'final_score': 'score', 'final_point': 'float'},
}


def props():
    for scope, d in TYPES.items():
        for p, t in d.items():
            yield scope, p, t


def attr(S, st, obj, name):
    return st.simp(S.I.get_attr(st, obj, name, None))


def prop(S, st, scope, name):
    return attr(S, st, S.g(FM, VIEWS[scope]), name)


def update(S, st, name):
    return attr(S, st, S.g(FM, 'Update'), name)


def event(S, st, name):
    return attr(S, st, S.g(FM, 'EventType'), name)


def val(I, st, x):
    """python value (numbers, texts, lists, values) as an abstract value"""
    if isinstance(x, V):
        return x
    if isinstance(x, list):
        return I.new_list(st, [val(I, st, y) for y in x])
    return Const(x)


class C:
    """a command to build"""

    def __init__(self, scope, prop, update, value=None, sub=0, time=0, event=None):
        self.scope, self.prop, self.update, self.value, self.sub, self.time, self.event = scope, prop, update, value, sub if scope == 'player' else 'all', time, event

    def __repr__(self):
        return '%s %s of %s %s' % (self.update, self.prop, self.sub, self.value)

    def make(self, S, st, **over):
        kw = {'prop': prop(S, st, self.scope, self.prop), 'update': update(S, st, self.update), 'sub_scope': Const(self.sub), 'timestamp': Const(self.time)}
        if self.update != 'RESET_DEFAULT' or self.value is not None:
            kw['value'] = val(S.I, st, self.value)
        if self.event:
            kw['event'] = event(S, st, self.event)
        kw.update(over)
        return S.I.call(st, S.g(CM, 'GameCommand'), [], kw, None)


def flat(S, st, snap):
    """{(scope, player or None, property): value} of a state snapshot, None when not definite"""
    it = S.I.call_method(st, snap, 'flatten_iter', [], {}, None)
    lst = S.I.call(st, Bi('list'), [it], {}, None)
    es = S.I.entries(st, lst)
    if es is None or any(e.g or e.many for e in es):
        return None
    out = {}
    for e in es:
        x = st.simp(e.v)
        if type(x) is not Tup or len(x.items) != 2:
            return None
        k = st.simp(x.items[0])
        if type(k) is not Tup:
            return None
        names = [member(st, q) for q in k.items]
        if None in names:
            return None
        out[tuple(names)] = st.simp(x.items[1])
    return out


def member(st, v):
    """text of a key: enum member name with its class, or the constant"""
    v = st.simp(v)
    if type(v) is Const:
        return v.v
    if type(v) is Ref:
        o = st.get(v.oid)
        n = (o.attrs or {}).get('_name_')
        if type(n) is Const:
            return (getattr(getattr(o, 'cls', None), 'name', None) or cls_name(st, o), n.v)
    return None


def cls_name(st, o):
    c = o.cls
    if type(c) is Ref:
        d = st.get(c.oid).data
        return getattr(d, 'name', None) or str(getattr(d, 'qual', '')).split(':')[-1]
    return str(c)


SEATS = ('first', 'second', 'third', 'forth')


def state_key(scope, sub, prop):
    if scope == 'player':
        return (('ViewScope', scope), ('PlayerId', SEATS[sub]), (VIEWS[scope], prop))
    return (('ViewScope', scope), 'single', (VIEWS[scope], prop))


def find(fl, scope, sub, prop):
    """values stored for a property of a seat (or of the game / record)"""
    out = []
    for k, v in fl.items():
        if k[-1] != (VIEWS[scope], prop):
            continue
        if scope == 'player' and ('PlayerId', SEATS[sub]) not in k:
            continue
        out.append(v)
    return out


def samples(typ):
    """(old, new) values of a type; lists are constants so that removing is decided"""
    return {
        'index': [(leaf('old', 0, 50), leaf('new', 0, 50)), (0, 0), (3, 0)], 'int': [(1, 2)], 'score': [(leaf('old', -500, 5000), leaf('new', -500, 5000)), (0, 1000), (0, 0)],
        'str': [('', 'x'), ('a', ''), ('0', '0')], 'bool': [(False, True), (True, False), (False, False)], 'float': [(0.0, 1.5), (1500.25, -20.5), (2.5, 0)],
        'tiles': [([], ['1m']), (['1m', '2m', '1m', '0p'], ['1m', '0p']), (['5z', '5z'], ['5z']), (['1m'], ['1m']), ([], [])],
        'list': [([], [False]), ([True, False, True], [True]), (['ドラ', '立直', 'ドラ'], ['ドラ'])],
        'melds': [([], [['1m', '2m', '3m']]), ([['7z', '7z', '7z'], ['1m', '2m', '3m']], [['1m', '2m', '3m']])],
    }[typ]


def is_list(t):
    return t in ('tiles', 'list', 'melds')


def is_number(t):
    return t in ('index', 'int', 'score', 'float')


def after(typ, upd, old, new):
    """the value after the update, as the format defines it; None when not defined"""
    if upd in ('REPLACE', 'ASSERT_EQUAL_OR_SET'):
        return new
    if upd == 'RESET_DEFAULT':
        return [] if is_list(typ) else 0 if typ == 'index' else None
    if old is None:
        return None
    if is_list(typ):
        if upd == 'ADD':
            return old + new
        left = list(old)
        for x in new:
            if x not in left:
                return None
            left.remove(x)
        return left
    if is_number(typ):
        a = old if isinstance(old, V) else Const(old)
        b = new if isinstance(new, V) else Const(new)
        if type(a) is Const and type(b) is Const:
            return a.v + b.v if upd == 'ADD' else a.v - b.v
        return n_add(a, b) if upd == 'ADD' else n_sub(a, b)
    return None


# ---- frozen values: what an observer sees, independent of object identity

class Unknown(Exception):
    pass


def frozen(S, st, v, depth=8):
    """nested tuples of values; raises Unknown when the content is not definite"""
    v = st.simp(v) if isinstance(v, V) else v
    if depth == 0:
        raise Unknown('too deep')
    if type(v) is Tup:
        return ('tuple',) + tuple(frozen(S, st, x, depth - 1) for x in v.items)
    if type(v) is not Ref:
        return v
    o = st.get(v.oid)
    n = (o.attrs or {}).get('_name_')
    if type(n) is Const:
        return ('member', cls_name(st, o), n.v)
    k = m_coll.kind_of(S.I, st, v)
    if k in ('list', 'set'):
        es = S.I.set_elems(st, o) if k == 'set' else S.I.entries(st, v)
        if es is None or any(e.g or e.many for e in es):
            # the entries as they are still identify the content
            if es is None:
                raise Unknown('list')
            return (k,) + tuple(('entry', e.g, e.many, frozen(S, st, e.v, depth - 1)) for e in es)
        return (k,) + tuple(frozen(S, st, e.v, depth - 1) for e in es)
    if k == 'dict':
        es = S.I.dict_items(st, o) if hasattr(S.I, 'dict_items') else None
        if es is None:
            raise Unknown('dict')
        return ('dict',) + tuple(es)
    return ('object', v.oid)


def same_frozen(a, b, assume=()):
    """True / False / None"""
    if a is b or a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if any(isinstance(x, tuple) and x and x[0] == 'entry' for x in a + b):
            return None
        if len(a) != len(b) or a[0] != b[0]:
            return False
        if a[0] == 'object':
            return None
        if a[0] == 'member':
            return False
        rs = [same_frozen(x, y, assume) for x, y in zip(a[1:], b[1:])]
        return False if False in rs else None if None in rs else True
    if isinstance(a, tuple) or isinstance(b, tuple):
        x = b if isinstance(a, tuple) else a
        return False if type(x) in (Const, Term) else None
    if isinstance(a, V) and isinstance(b, V):
        return same_value(a, b, assume)
    return a == b


FIELDS = ('timestamp', 'event', 'sub_scope_id', 'property', 'update_method', 'value', 'state')


def frozen_cmd(S, st, c):
    return tuple([''] + [frozen(S, st, S.I.get_attr(st, c, f, None)) for f in FIELDS])


def describe(f):
    if isinstance(f, tuple):
        if f and f[0] == 'member':
            return f[2]
        return [describe(x) for x in f[1:]] if f else f
    return repr(f)

