"""C21: each discard is judged on exactly what the player knew before it."""
from ..reports import *

RULE = ('Abstract interpretation of the whole report over scripted games (calls by and from the player, quads, indicators turned over, norths, riichi of '
        'every side, several games), with the searches replaced by a fixed function of the hand they are asked about: for each discard of the '
        'player the entry of the report - hand, melds, the step, useful tiles and number of unseen copies of every candidate, the candidate shown as '
        'the choice, the riichi mark - is compared with what the events before that discard, and none later, make it.')

ASSUMPTIONS = ['what the searches answer for a hand is decided by other properties; red fives count as fives when hands are compared']


def run(rep):
    S = Session(rep)
    jobs = [(sc, me) for players in (4, 3) for me in range(players) for sc in scripts(me, players)]
    rep.parallel(jobs, lambda j: one(S, rep, *j), limit=200)


def kinds(xs):
    return sorted(plain_kind(x) for x in xs)


def one(S, rep, sc, me):
    base = '%d players, seat %d, %s' % (sc.players, me, sc.name)
    at = S.loc_of(S.g(CHECK, 'render_template'))
    with rep.group(base):
        j = Judge(S)
        b = report(S, sc, me, j)
        if b.kwargs is None:
            names = sorted({str(x) for x, _ in S.exc(b.out)})
            rep.decide(False if b.out.dead and names else None, base + ': report made', at, 'always raises %s' % ', '.join(names))
            return
        st = b.rst
        games = seq(S, st, b.kwargs.get('games')) if b.kwargs.get('games') is not None else None
        if games is None:
            rep.undecided(base + ': games', at, 'no definite list of games')
            return
        known = sc.knowledge(me)
        rep.decide(len(games) == len(known), base + ': every game once', at, '%d games analysed of %d' % (len(games), len(known)))
        i = 0
        for gi, (g, ks) in enumerate(zip(games, known)):
            rounds = attr(S, st, g, 'rounds')
            rs = seq(S, st, rounds) if rounds is not None else None
            n = '%s, game %d' % (base, gi + 1)
            if rs is None:
                rep.undecided(n, at, 'no definite list of discards')
                continue
            rep.decide(len(rs) == len(ks), n + ': every discard once', at, '%d entries for %d discards' % (len(rs), len(ks)))
            for k, (r, w) in enumerate(zip(rs, ks)):
                rep.count('discards compared')
                entry(S, rep, '%s, discard %d' % (n, k + 1), at, st, r, w)
        asked(S, rep, base, j, known)


def entry(S, rep, n, at, st, r, w):
    hand = read(S, st, attr(S, st, r, 'hand'))
    texts = sorted(name_of(x) for x in w['hand'])
    rep.decide(None if not is_texts(hand) else kinds(hand) == kinds(texts), n + ': the hand', at, 'it is %s for %s' % (hand, texts))
    melds = read(S, st, attr(S, st, r, 'melds'))
    want = sorted(kinds(name_of(x) for x in m['tiles']) for m in w['melds'])
    rep.decide(None if not isinstance(melds, list) or not all(is_texts(m) for m in melds) else sorted(kinds(m) for m in melds) == want, n + ': the melds', at,
               'they are %s for %s' % (melds, want))
    rich = read(S, st, attr(S, st, r, 'somebody_richii'))
    rep.decide(None if not isinstance(rich, bool) else rich == w['richii'], n + ': the riichi mark', at, 'it is %s for %s' % (rich, w['richii']))
    choice = item(S, st, attr(S, st, r, 'your_choice_reasoning'))
    best = candidates(w)
    mine = name_of(w['tile'])
    if choice is None:
        rep.undecided(n + ': the choice', at, '')
    else:
        rep.decide(choice['tile'] == mine, n + ': the choice is the tile discarded', at, '%s is judged, %s was discarded' % (choice['tile'], mine))
        compare(rep, n + ': the choice', at, choice, best[plain_kind(mine)])
    for field in ('merged_reasoning', 'expected_reasonings'):
        xs = attr(S, st, r, field)
        xs = seq(S, st, xs) if xs is not None else None
        its = [item(S, st, x) for x in xs] if xs is not None else None
        if its is None or None in its:
            rep.undecided('%s: %s' % (n, field), at, '')
            continue
        keys = {k: (v['step'], -v['count']) for k, v in best.items()}
        lo = min(keys.values())
        due = sorted(best) if field == 'merged_reasoning' else sorted(k for k in best if keys[k] == lo)
        got = sorted(plain_kind(x['tile']) for x in its)
        rep.decide(got == due, '%s: the candidates (%s)' % (n, field), at, '%s instead of %s' % (got, due))
        for x in its:
            if plain_kind(x['tile']) in best:
                compare(rep, '%s: candidate %s (%s)' % (n, x['tile'], field), at, x, best[plain_kind(x['tile'])])
    for field, p in (('normal_reasonings', 'normal'), ('seven_pair_reasonings', 'pairs')):
        xs = attr(S, st, r, field)
        if xs is None:
            continue
        xs = seq(S, st, xs)
        its = [item(S, st, x) for x in xs] if xs is not None else None
        if its is None or None in its:
            rep.undecided('%s: %s' % (n, field), at, '')
            continue
        one = candidates(w, [p])
        if p in patterns_of(w):
            rep.decide(sorted(plain_kind(x['tile']) for x in its) == sorted(one), '%s: the candidates (%s)' % (n, field), at,
                       '%s instead of %s' % (sorted(x['tile'] for x in its), sorted(one)))
        else:
            rep.decide(not its, '%s: nothing to show (%s)' % (n, field), at, '%d candidates for a pattern out of reach' % len(its))
        for x in its:
            if plain_kind(x['tile']) in one:
                compare(rep, '%s: candidate %s (%s)' % (n, x['tile'], field), at, x, one[plain_kind(x['tile'])])


def patterns_of(w):
    return ['normal'] + (['pairs'] if not any(m['kind'] != 'north' for m in w['melds']) else [])


def is_texts(x):
    return isinstance(x, list) and all(isinstance(t, str) and len(t) == 2 for t in x)


def candidates(w, patterns=None):
    """what each candidate has to show"""
    hc = {}
    for x in w['hand']:
        k = kind_name(x)
        hc[k] = hc.get(k, 0) + 1
    patterns = patterns or patterns_of(w)
    out = {}
    for k in hc:
        rest = less(hc, k)
        steps = {p: step_of(p, rest) for p in patterns}
        lo = min(steps.values())
        use = sorted({u for p in patterns if steps[p] == lo for u in useful_of(p, rest)})
        out[k] = dict(step=lo, useful=use, count=sum(1 for x in w['unseen'] if kind_name(x) in use))
    return out


def item(S, st, v):
    if v is None:
        return None
    tile = read(S, st, attr(S, st, v, 'discard_tile')) if attr(S, st, v, 'discard_tile') is not None else None
    if isinstance(tile, list) and len(tile) == 1:
        tile = tile[0]
    if tile is None:
        t = attr(S, st, v, 'discard_tile')
        t = st.simp(S.I.call(st, Bi('str'), [t], {}, None)) if t is not None else None
        tile = t.v if type(t) is Const else None
    use = read(S, st, attr(S, st, v, 'useful_tiles')) if attr(S, st, v, 'useful_tiles') is not None else None
    step, count = attr(S, st, v, 'waiting_step'), attr(S, st, v, 'useful_tiles_count')
    if not isinstance(tile, str) or use is None or type(step) is not Const or type(count) is not Const:
        return None
    return dict(tile=tile, useful=sorted(plain_kind(x) for x in use), step=step.v, count=count.v)


def compare(rep, n, at, got, want):
    for f, t in (('step', 'steps to a ready hand'), ('useful', 'useful tiles'), ('count', 'unseen useful tiles')):
        rep.decide(got[f] == want[f], '%s: %s' % (n, t), at, '%s instead of %s' % (got[f], want[f]))


def asked(S, rep, base, j, known):
    """the number of sets still wanted is what the melds leave"""
    if j.unclear:
        rep.undecided(base + ': searches', S.loc(j.unclear[0]), 'hand not known')
        return
    wants = {}
    for ks in known:
        for w in ks:
            hc = {}
            for x in w['hand']:
                hc[kind_name(x)] = hc.get(kind_name(x), 0) + 1
            n = 4 - sum(1 for m in w['melds'] if m['kind'] != 'north')
            wants.setdefault(tuple(sorted(hc.items())), set()).add(n)
            for k in hc:
                wants.setdefault(tuple(sorted(less(hc, k).items())), set()).add(n)
    for how, kind, m, hc, node in j.asked:
        if kind != 'normal' or m is None:
            continue
        key = tuple(sorted(by_kind(hc).items()))
        if key in wants:
            rep.decide(m in wants[key], base + ': the sets still wanted', S.loc(node), '%d sets are wanted, %s are left' % (m, sorted(wants[key])))
