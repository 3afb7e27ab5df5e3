"""C18: calls are classified and decoded identically everywhere."""
from ..lib import *
from ..recs import *

RULE = ('Bit-provenance by value numbering of the 16 bit call code: for all 16 combinations of the four kind flags, with the other bits as '
        'separate symbolic atoms, the kind decided by every reader (meld_type, meld_from, TenhouPlayer.opened_hand_type, '
        'TenhouEvent.to_paifu, the open-hand command rule) is folded and compared with the precedence of the format; for every kind, seat '
        'offset, suit, claimed position and omitted copy the sets of own and claimed tiles and the seat claimed from are compared as affine '
        'forms of the atoms with the layout of the format.')

MELD = 'mahjong.record.utils.value.meld'
KINDS = {'flush': 'Flush', 'triplet': 'Triplet', 'add_kan': 'TenhouAddedKan', 'kita': 'Kita', 'kan': 'TenhouKan'}
ROWS = {'flush': ('CHI',), 'triplet': ('PENG',), 'add_kan': ('GANG',), 'kita': ('KITA',), 'kan': ('ANGANG', 'MINGGANG')}


def kind_of_flags(s, k, c, n):
    return 'flush' if s else 'triplet' if k else 'add_kan' if c else 'kita' if n else 'kan'


def flag_word(s, k, c, n, kui):
    base = [(0, kui), (2, s), (3, k), (4, c), (5, n)]
    if s:
        return word(base + [(6, leaf('bits6_9', 0, 15)), (10, 22)])
    if k or c:
        return word(base + [(6, leaf('bits6_8', 0, 7)), (9, 28)])
    return word(base + [(6, leaf('bits6_7', 0, 3)), (8, 121)])


def event(I, st, who, w):
    return elem(I, st, 'N', who=text(who), m=text(w))


def wrap(I, st, S, el):
    T = S.g('mahjong.record.utils.event', 'TenhouEvent')
    return I.call(st, T, [el], {'context': NONE, 'timestamp': Const(0)}, None)


def class_name(S, st, v):
    v = st.simp(v)
    if type(v) is Ref and st.get(v.oid).kind == 'inst' and type(st.get(v.oid).cls) is Ref:
        return S.base.get(st.get(v.oid).cls.oid).data.qual.split(':')[-1]
    return None


def enum_name(S, st, v):
    v = st.simp(v)
    if type(v) is Ref and st.get(v.oid).kind == 'inst':
        x = st.get(v.oid).attrs.get('_name_')
        return x.v if type(x) is Const else None
    return None


def all_alts(st, v, f):
    """f of every alternative, None when one is unknown"""
    r = {f(x) for _, x in alts(st, v)}
    return None if None in r else r


def run(rep):
    S = Session(rep)
    classify(S, rep)
    decode(S, rep)
    triplets(S, rep)


def classify(S, rep):
    mf = S.g(MELD, 'meld_from')
    mt = S.g(MELD, 'meld_type') if S.has(MELD, 'meld_type') else None
    Ev = S.g('mahjong.record.utils.event', 'TenhouEvent')
    Player = S.g('mahjong.record.player', 'TenhouPlayer')
    want_cls = {}
    for kn, cn in KINDS.items():
        want_cls[kn] = cn
    wp = S.loc_of(S.I.class_attr(S.base, Ev, 'to_paifu'))
    for bits in [(s, k, c, n) for s in (0, 1) for k in (0, 1) for c in (0, 1) for n in (0, 1)]:
        kind = kind_of_flags(*bits)
        for kui in (0, 1):
            w = flag_word(*bits, Const(kui))
            fl = 'flags sequence=%d triplet=%d added=%d north=%d offset %d' % (bits + (kui,))
            who = leaf('who', 0, 3)
            for reader, f in (('meld_from', mf), ('opened_hand_type', None)):
                nm = '%s classifies %s' % (reader, fl)
                with rep.group(nm):
                    def go(I, s):
                        el = event(I, s, who, w)
                        if f is not None:
                            return I.call(s, f, [el], {}, None)
                        p = S.new(s, Player, Const(0), Const('n'), Const(1), Const(1500), Const('M'))
                        return I.call_method(s, p, 'opened_hand_type', [wrap(I, s, S, el)], {}, None)
                    o = S.run(go)
                    at = S.loc_of(f) if f is not None else S.loc_of(S.I.class_attr(S.base, Player, 'opened_hand_type'))
                    if o.dead:
                        rep.bad(nm, at, 'raises %s' % [n for n, _ in S.exc(o)])
                        continue
                    got = all_alts(o.st, o.value, lambda x: class_name(S, o.st, x))
                    rep.decide(None if got is None else got == {KINDS[kind]}, nm, at, 'gives %s, the format says %s' % (got, kind))
            if mt is not None:
                nm = 'meld_type classifies %s' % fl
                with rep.group(nm):
                    o = S.run(lambda I, s: I.call(s, mt, [text(w)], {}, None))
                    if o.dead:
                        rep.bad(nm, S.loc_of(mt), 'raises %s' % [n for n, _ in S.exc(o)])
                    else:
                        got = all_alts(o.st, o.value, lambda x: enum_name(S, o.st, x))
                        rep.decide(None if got is None else got == {kind}, nm, S.loc_of(mt), 'gives %s, the format says %s' % (got, kind))
            nm = 'to_paifu classifies %s' % fl
            with rep.group(nm):
                o = S.run(lambda I, s: I.call_method(s, wrap(I, s, S, event(I, s, Const(2), w)), 'to_paifu', [], {}, None))
                if o.dead:
                    rep.bad(nm, wp, 'raises %s' % [n for n, _ in S.exc(o)])
                else:
                    got = set()
                    for _, x in alts(o.st, o.value):
                        rows = seq(S, o.st, x)
                        for r in rows or [None]:
                            t = cell(S, o.st, r, 'event_type') if r is not None else None
                            got.add(t.v.strip() if type(t) is Const and isinstance(t.v, str) else None)
                    rep.decide(None if None in got else bool(got) and got <= set(ROWS[kind]), nm, wp, 'rows %s, the format says %s' % (got, ROWS[kind]))


def cell(S, st, row, key):
    row = st.simp(row)
    if type(row) is Ref and st.get(row.oid).kind == 'dict':
        e = st.get(row.oid).data.get(S.I.keyof(st, Const(key)))
        if e is not None and not e.g:
            return st.simp(e.v)
    return None


def tile_of(c, n, h):
    return lin((1, 36 * c), (4, n), (1, h))


def codes():
    """(kind, name, word, own tiles, claimed tiles, check seat)"""
    for kui in (1, 2, 3, 0):
        # sequences are claimed from the left neighbour, but the code allows any seat
        for c in (0, 1, 2):
            for which in (0, 1, 2):
                st = leaf('start', 0, 6)
                h = [leaf('copy%d' % i, 0, 3) for i in range(3)]
                w = word([(0, kui), (2, 1), (3, h[0]), (5, h[1]), (7, h[2]), (9, leaf('unused9', 0, 1)), (10, lin((1, 21 * c), (3, st), which))])
                ts = [tile_of(c, lin((1, st), i), h[i]) for i in range(3)]
                yield 'flush', 'suit %d position %d offset %d' % (c, which, kui), w, ts[:which] + ts[which + 1:], [ts[which]], kui
        for c in (0, 1, 2, 3):
            num = leaf('number%s' % ('z' if c == 3 else ''), 0, 6 if c == 3 else 8)
            for which in (0, 1, 2):
                for unused in (0, 1, 2, 3):
                    w = word([(0, kui), (3, 1), (5, unused), (7, leaf('unused78', 0, 3)), (9, lin((1, 27 * c), (3, num), which))])
                    hs = [h for h in range(4) if h != unused]
                    ts = [tile_of(c, num, h) for h in hs]
                    yield 'triplet', 'suit %d position %d omitted copy %d offset %d' % (c, which, unused, kui), w, ts[:which] + ts[which + 1:], [ts[which]], kui
            h = leaf('added_copy', 0, 3)
            w = word([(0, kui), (4, 1), (5, h), (7, leaf('unused78', 0, 3)), (9, lin((1, 27 * c), (3, num), leaf('claimed_copy', 0, 2)))])
            yield 'add_kan', 'suit %d offset %d' % (c, kui), w, [tile_of(c, num, h)], [], kui
            for copy in (0, 1, 2, 3):
                w = word([(0, kui), (6, leaf('unused67', 0, 3)), (8, tile_of(c, num, copy))])
                ts = [tile_of(c, num, i) for i in range(4)]
                if kui:
                    yield 'kan', 'suit %d copy %d offset %d' % (c, copy, kui), w, ts[:copy] + ts[copy + 1:], [ts[copy]], kui
                else:
                    yield 'kan', 'closed suit %d copy %d' % (c, copy), w, ts, [], 0
    for kui in (0, 3):
        t = leaf('tile', 0, 135)
        yield 'kita', 'offset %d' % kui, word([(0, kui), (5, 1), (6, leaf('unused67', 0, 3)), (8, t)]), [t], [], None


def decode(S, rep):
    mf = S.g(MELD, 'meld_from')
    wf = S.loc_of(mf)
    who = leaf('who', 0, 3)
    for kind, name, w, own, claimed, kui in codes():
        cls = S.g(MELD, KINDS[kind])
        at = S.where_class(cls) + ' ' + KINDS[kind]
        nm = '%s %s' % (kind, name)
        rep.count('call codes')
        with rep.group(nm):
            def go(I, s):
                m = I.call(s, mf, [event(I, s, who, w)], {}, None)
                return Tup([m] + [I.get_attr(s, m, a, None) for a in ('self_tiles', 'borrowed_tiles', 'from_who')])
            o = S.run(go)
            if o.dead:
                rep.bad(nm + ' is decoded', at, 'raises %s' % [n for n, _ in S.exc(o)])
                continue
            _, a, b, f = [o.st.simp(x) for x in o.value.items]
            rep.decide(same_set(o.st, set_values(S, o.st, a), own), nm + ': own tiles', at, 'decoded %r, the layout gives %r' % (set_values(S, o.st, a), own))
            rep.decide(same_set(o.st, set_values(S, o.st, b), claimed), nm + ': claimed tiles', at, 'decoded %r, the layout gives %r' % (set_values(S, o.st, b), claimed))
            if kui is not None:
                want = n_qr(n_add(who, Const(kui)), 4)[1]
                rep.decide(same_value(f, want), nm + ': claimed from', at, 'decoded %r, the format says %r' % (f, want))


def triplets(S, rep):
    """which triplet an added tile belongs to"""
    f = S.g(MELD, 'is_triplet_of_added_kan')
    T, A = S.g(MELD, 'Triplet'), S.g(MELD, 'TenhouAddedKan')
    at = S.loc_of(f)
    for c1 in range(4):
        for c2 in range(4):
            nm = 'added tile of suit %d joins the triplet of suit %d of the same number only' % (c2, c1)
            with rep.group(nm):
                bad = unknown = None
                for n1 in range(7 if c1 == 3 else 9):
                    for n2 in range(7 if c2 == 3 else 9) if c1 == c2 else (0, 4, 6):
                        w1 = word([(0, 2), (3, 1), (5, 3), (9, lin((1, 27 * c1), 3 * n1, 1))])
                        w2 = word([(0, 2), (4, 1), (5, leaf('added_copy', 0, 3)), (9, lin((1, 27 * c2), 3 * n2, 1))])
                        o = S.run(lambda I, s: I.call(s, f, [S.new(s, T, Const(1), text(w1)), S.new(s, A, Const(1), text(w2))], {}, None))
                        rep.count('triplet and added tile pairs')
                        if o.dead:
                            bad = 'raises %s' % [n for n, _ in S.exc(o)]
                            continue
                        want = Const(c1 == c2 and n1 == n2)
                        r = same_value(o.value, want)
                        if r is False:
                            bad = 'numbers %d and %d: decides %r, should be %r' % (n1 + 1, n2 + 1, o.value, want)
                        elif r is None:
                            unknown = 'numbers %d and %d: decides %r, should be %r' % (n1 + 1, n2 + 1, o.value, want)
                rep.decide(False if bad else None if unknown else True, nm, at, bad or unknown or '')
