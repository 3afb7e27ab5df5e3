"""Abstract records of the log format: one symbolic element per kind of event.

Numbers that may take any value are leaves, seats and call codes are constants,
so that a fact's origin is visible in every value computed from the record."""
from .lib import *
from .recs import *

EV = 'mahjong.record.utils.event'
DRAWS, DISCARDS = 'TUVW', 'DEFG'


def sl(name, kind='text'):
    return sleaf(name, kind)


def dec(name):
    """a decimal number as text"""
    return sleaf(name, 'dec')


# ---- call codes of the format (constants, one per kind)

def chi_code(frm, suit, num, which, copies):
    return frm | 4 | copies[0] << 3 | copies[1] << 5 | copies[2] << 7 | ((suit * 7 + num) * 3 + which) << 10


def pon_code(frm, kind, which, unused):
    return frm | 8 | unused << 5 | (kind * 3 + which) << 9


def added_code(frm, kind, which, added):
    return frm | 16 | added << 5 | (kind * 3 + which) << 9


def north_code(tile):
    return 32 | tile << 8


def kan_code(frm, tile):
    return frm | tile << 8


class Call:
    """a call with the tile numbers it is made of"""

    def __init__(self, kind, code, own, claimed, frm):
        self.kind, self.code, self.own, self.claimed, self.frm = kind, code, set(own), set(claimed), frm


def calls():
    k = 3 * 9 + 4  # a wind
    return {
        'chi': Call('chi', chi_code(3, 1, 2, 1, (2, 0, 3)), [36 + 8 + 2, 36 + 16 + 3], [36 + 12], 3),
        'pon': Call('pon', pon_code(1, k, 0, 2), [k * 4 + 1, k * 4 + 3], [k * 4], 1),
        'pon unused first': Call('pon', pon_code(2, 5, 2, 0), [5 * 4 + 1, 5 * 4 + 2], [5 * 4 + 3], 2),
        'added': Call('added', added_code(1, k, 0, 2), [k * 4 + 2], [], 1),
        'north': Call('north', north_code(30 * 4 + 1), [30 * 4 + 1], [], 0),
        'closed kan': Call('closed kan', kan_code(0, 8 * 4), [32, 33, 34, 35], [], 0),
        'open kan': Call('open kan', kan_code(2, 9 * 4 + 1), [36, 38, 39], [37], 2),
    }


# ---- events

def go(I, st, players=4, **bits):
    t = {4: 169, 3: 185}[players]
    return elem(I, st, 'GO', type=str(t), lobby='0')


def fractional(st, x):
    """assume the decimal text x is not a whole number; returns x"""
    f = Term('float', (x,), 'float')
    st.assume(Term('eq0', (n_sub(f, Term('int', (f,), 'int')),), 'bool'), False)
    return x


def un(I, st, players=4, tag='', missing=(), full=True):
    a = {}
    for i in range(4):
        if i in missing:
            continue
        a['n%d' % i] = sl('name%d%s' % (i, tag)) if i < players else ''
    if full:
        a['dan'] = join([leaf('dan%d%s' % (i, tag), 0, 20) for i in range(4)])
        a['rate'] = join([fractional(st, dec('rate%d%s' % (i, tag))) for i in range(4)])
        a['sx'] = ','.join('MFMC'[:4])
    for i in range(players):
        if i not in missing:
            st.assume(Term('eq', (Term('strip', (a['n%d' % i],), 'str'), Const('')), 'bool'), False)
    return elem(I, st, 'UN', **a)


def taikyoku(I, st, oya):
    return elem(I, st, 'TAIKYOKU', oya=str(oya))


def init(I, st, oya, players=4, tag='', hands=13):
    a = {'seed': join([leaf(n + tag, lo, hi) for n, lo, hi in (('round', 0, 11), ('honba', 0, 20), ('sticks', 0, 10), ('dice1', 0, 5), ('dice2', 0, 5), ('dora', 0, 135))]),
         'ten': join([leaf('ten%d%s' % (i, tag), 0, 1500) if i < players else Const(0) for i in range(4)]),
         'oya': str(oya)}
    for p in range(4):
        a['hai%d' % p] = join([leaf('hai%d_%d%s' % (p, i, tag), 0, 135) for i in range(hands)]) if p < players else ''
    return elem(I, st, 'INIT', **a)


def tagged(I, st, letter, tile):
    return elem(I, st, Term('cat', (Const(letter), text(tile)), 'str') if type(tile) is not Const else letter + str(tile.v))


def draw(I, st, p, tile):
    return tagged(I, st, DRAWS[p], tile)


def discard(I, st, p, tile):
    return tagged(I, st, DISCARDS[p], tile)


def call(I, st, p, code):
    return elem(I, st, 'N', who=str(p), m=str(code))


def reach(I, st, p, step, players=4, tag=''):
    a = {'who': str(p)}
    if step == 2:
        a['ten'] = join([leaf('rten%d%s' % (i, tag), 0, 1500) if i < players else Const(0) for i in range(4)])
    a['step'] = str(step)
    return elem(I, st, 'REACH', **a)


def dora(I, st, tile):
    return elem(I, st, 'DORA', hai=text(tile))


def scores(players, tag):
    xs = []
    for i in range(4):
        xs += [leaf('sc%d%s' % (i, tag), -500, 1500), leaf('delta%d%s' % (i, tag), -1000, 1000)] if i < players else [Const(0), Const(0)]
    return join(xs)


def owari(st, players, tag):
    xs = []
    for i in range(4):
        xs += [leaf('final%d%s' % (i, tag), -500, 1500), fractional(st, dec('point%d%s' % (i, tag)))] if i < players else [Const(0), Const(0)]
    return join(xs)


def agari(I, st, who, frm, players=4, tag='', last=False, yakuman=False, hand=5, nyaku=2):
    machi = leaf('machi' + tag, 0, 135)
    a = {'ba': '0,0', 'hai': join([leaf('win%d%s' % (i, tag), 0, 135) for i in range(hand)] + [machi]), 'machi': text(machi),
         'ten': join([leaf('fu' + tag, 20, 110), leaf('points' + tag, 1000, 96000), leaf('limit' + tag, 0, 5)])}
    if yakuman:
        a['yakuman'] = join([leaf('yakuman%d%s' % (i, tag), 37, 51) for i in range(nyaku)])
    else:
        xs = []
        for i in range(nyaku):
            xs += [leaf('yaku%d%s' % (i, tag), 0, 36), leaf('han%d%s' % (i, tag), 0, 13)]
        a['yaku'] = join(xs)
    a.update(doraHai=text(leaf('wdora' + tag, 0, 135)), who=str(who), fromWho=str(frm), sc=scores(players, tag))
    if last:
        a['owari'] = owari(st, players, tag)
    return elem(I, st, 'AGARI', **a)


def ryuukyoku(I, st, players=4, tag='', kind=None, last=False, score=True):
    a = {'ba': '0,0'}
    if kind:
        a['type'] = kind
    if score:
        a['sc'] = scores(players, tag)
    if last:
        a['owari'] = owari(st, players, tag)
    return elem(I, st, 'RYUUKYOKU', **a)


def bye(I, st, p):
    return elem(I, st, 'BYE', who=str(p))


def shuffle(I, st):
    return elem(I, st, 'SHUFFLE', seed=sl('shuffle_seed'), ref='')


def wrap(S, st, els):
    """the elements as events of a record, timestamps counting from 0"""
    T = S.g(EV, 'TenhouEvent')
    return [S.I.call(st, T, [e], {'context': NONE, 'timestamp': Const(i)}, None) for i, e in enumerate(els)]


def record(S, st, els):
    """an object with the events of a record, for code that reads nothing else"""
    return st.new(Obj('inst', Bi('object'), {'events': S.I.new_list(st, wrap(S, st, els))}))


TILE_FN = 'mahjong.record.utils.value.tile:tile_from_tenhou'


def tile_stub(I, st, f, args, kwargs, node):
    """the tile of a tile number, kept as a term (what it is, is decided by C07)"""
    x = st.simp((list(args) + list(kwargs.values()))[0])
    if type(x) is Const:
        return NotImplemented
    return Term('tile', (x,), 'tile')


def tile(x):
    return Term('str', (Term('tile', (x,), 'tile'),), 'str')


STUBS = {TILE_FN: tile_stub}


# ---- commands read back

class Cmd:
    """one command: field values, the literals it stands under"""

    def __init__(self, st, obj, lits, many):
        a = st.get(obj.oid).attrs
        self.obj, self.lits, self.many, self.st = obj, lits, many, st
        for f in ('event', 'timestamp', 'sub_scope_id', 'property', 'update_method', 'value', 'state'):
            setattr(self, f, st.simp(a[f]) if f in a else None)

    def name(self, f):
        """name of an enum member field, None when not a definite member"""
        v = getattr(self, f)
        if type(v) is Ref:
            n = self.st.get(v.oid).attrs.get('_name_')
            if type(n) is Const:
                return n.v
        if type(v) is Const and v.v is None:
            return ''
        return None

    def cls(self, f):
        v = getattr(self, f)
        c = self.st.get(v.oid).cls if type(v) is Ref else None
        return getattr(c, 'name', None)


def commands(S, st, v):
    """the commands in a list, in order; None when not a definite list"""
    es = elements(S, st, v)
    if es is None:
        return None
    out = []
    for lits, x, many in es:
        if type(x) is not Ref or st.get(x.oid).attrs is None or 'update_method' not in st.get(x.oid).attrs:
            return None
        q = under(st, lits) if lits else st
        if q is None:
            continue
        out.append(Cmd(q, x, lits, many))
    return out


class Bag:
    """a list whose order does not matter"""

    def __init__(self, xs):
        self.xs = list(xs)

    def __repr__(self):
        return 'in any order %r' % (self.xs,)


def same(S, st, got, want):
    """True / False / None: the value a command carries is the wanted one

    want: value, python constant, list (same order) or Bag (any order)"""
    got = st.simp(got) if isinstance(got, V) else got
    if isinstance(want, (list, Bag)):
        xs = want if isinstance(want, list) else want.xs
        if type(got) is not Ref:
            if type(got) is Const or (type(got) is Term and got.ty in ('int', 'bool', 'str')):
                return False
            return None
        es = S.I.entries(st, got)
        if es is None or any(e.g or e.many for e in es):
            return None
        ys = [st.simp(e.v) for e in es]
        if len(xs) != len(ys):
            return False
        if isinstance(want, Bag):
            if any(isinstance(x, (list, Bag)) for x in xs):
                if len(xs) != 1:
                    return None
                return same(S, st, ys[0], xs[0])
            xs = [x if isinstance(x, V) else Const(x) for x in xs]
            r = same_set(st, ys, xs)
            if r is False and not all(type(x) is Const for x in list(xs) + ys):
                return refuted(xs, ys)
            return r
        rs = [same(S, st, y, x) for x, y in zip(xs, ys)]
        return False if False in rs else (None if None in rs else True)
    w = want if isinstance(want, V) else Const(want)
    if type(got) is Ref:
        return False if type(w) in (Const, Term) and m_coll.kind_of(S.I, st, got) is not None else None
    if type(got) is Const and type(w) is Const and isinstance(got.v, bool) != isinstance(w.v, bool) and got.v == w.v:
        return None
    return same_value(got, w, tuple(st.guards))


def refuted(xs, ys):
    """False when the two lists differ as multisets for some sample, else None"""
    from . import finite
    ls = set()
    for x in xs + ys:
        ls |= leaves_of(x)
    for shift in range(3):
        env = {}
        for i, l in enumerate(sorted(ls, key=lambda t: t.n)):
            try:
                d, _ = finite.domain(l)
            except Exception:
                return None
            env[l] = d[(i * 37 + shift * 11 + 5) % len(d)]
        try:
            a = sorted(repr(finite.ev(x, env, {})) for x in xs)
            b = sorted(repr(finite.ev(y, env, {})) for y in ys)
        except Exception:
            return None
        if a != b:
            return False
    return None


def tile_text(n):
    from . import finite
    return Const(finite.tile_text(n))


def tt(x):
    """expected text of the tile with number x"""
    return tile_text(x if isinstance(x, int) else x.v) if isinstance(x, int) or type(x) is Const else tile(x)


class Makers:
    """listener: the source line each command was built at (the caller of the builder or constructor)"""
    PLUMBING = ('mahjong.record.utils.builder', 'mahjong.record.universe.command')

    def __init__(self, S):
        self.S, self.made = S, {}

    def __call__(self, k, d):
        if k == 'call' and d['qual'].startswith('mahjong.record.universe.command:GameCommand.__init__'):
            me = next(iter(d['bound'].values()))
            node, fr = d['node'], None
            for f in reversed(d['stack']):
                if f.fd is None:
                    continue
                if f.modname in self.PLUMBING:
                    node = f.call_node or node
                    continue
                fr = f
                break
            self.made[me.oid] = (node, fr)

    def where(self, cmd):
        r = self.made.get(cmd.obj.oid)
        if r is None:
            return ''
        node, fr = r
        return '%s %s' % (self.S.loc(node), fr.fd.qual if fr is not None else '')
