"""Write DESIGN.md: the hand-written parts below plus, per property, the rule and assumptions its check states."""
import ast, glob, json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Design

Everything here is static analysis: the checks read the current source of `/repo` (syntax trees), interpret it over abstract values and report a
construct of that source. Nothing of the package is imported or run, no solver is called, no path is replayed. The analyser is in `/verif/sa`, needs
only `/usr/bin/python3` and its standard library, and is started as `python3 -m sa.check CNN --tier quick|thorough` from `/verif`.
(The package itself runs under PyPy 3.9; that interpreter is used for demonstrations of planted changes only, never by a check.)

## How a property is decided

* `values.py`, `finite.py` - abstract values. Numbers are affine forms over named leaves with intervals (`leaf('tile', 0, 135)`), texts are
  concatenations of constants and leaves, conditions are gated literals; equality of two values is equality of their normal forms (value numbering), and
  `same_value` answers True, False (they differ for some admissible leaf) or *unknown*.
* `state.py`, `interp.py`, `m_*.py`, `models.py` - the abstract interpreter: an abstract heap with allocation identities, gated container entries, path
  conditions, merges that keep gates (path-sensitive mode) or thin out (FLAT mode, for the searches), generators, classes, properties, decorators,
  closures, namedtuples, enums, regular expressions over text with leaves, and models of the library functions the package uses. Anything not modelled gives
  an unknown value, and an unknown value leads to *undecided*, never to a violation.
* `effects.py` - heap effects: which existing object was changed, where, by which call chain, and whether its observable content really differs afterwards.
* `universe.py`, `world.py`, `track.py`, `programs.py`, `views.py`, `reports.py`, `page.py`, `waiting.py` - the abstract inputs (records with symbolic tile
  numbers, seats enumerated; hands with symbolic counts; scripted games; programs with symbolic input) and the oracles, written from the log format and the
  rules of the game and not from the code.
* `report.py`, `lib.py` - obligations, work in parallel processes with a deadline, evidence, known findings.

**Verdicts.** An obligation is *held*, *violated* (only when a definite difference, effect, error or missing guard was shown on a feasible path) or *undecided*.
Undecided obligations are printed and counted in the evidence but raise no alarm. On the unchanged tree every obligation of every check is held. Exit codes: 0
nothing violated, 1 a `VIOLATION` line, 2 only if the source cannot be read at all. A check that runs out of its time (600 s) reports what it has decided;
if that is nothing it prints `UNDECIDED:` and exits 0. `quick` and `thorough` differ in bounds where a check has any.

**Judging behaviour, not wording.** Checks look functions up by the public names the documentation and the rest of the package use and compare what they
compute. Two sets of about a hundred refactorings (helpers extracted, loops turned into comprehensions and back, statements reordered, conditions
inverted, private names changed, intermediate values named) were applied to copies; every check had to stay quiet on them.

## Limits

* Bounds: searches over hands are interpreted on representative tiles and small patterns with bounded recursion (C01, C02, C04); event sequences are short but
  start from every kind of situation; seats, calls and game types are enumerated completely; tile numbers, scores, ranks and texts are symbolic.
* C10 compares readings of constant scenes which differ in one respect (number 0 against another number, seat 0 against a rotated table); it does not use a
  list of forbidden constructs.
* C26: the divisor `sum(infinite_pick)` of the simulation summary is the sum of an eigenvector for the largest eigenvalue of a matrix that is strictly positive
  off the diagonal; it is assumed not to vanish (Perron-Frobenius), which no analysis of this source decides.
* Properties N01-N08 (true minimality, agreement of the three algorithms, completeness of the decomposition, notation round trip, stage grouping, convergence,
  CSV of a library, running time) are out of reach of this family and listed under `not_applicable`.

## False alarms met and corrected

* C01: an order normalisation in place (`re_sort`) was reported when the analysis stopped between clearing and refilling. Only changes that are not undone at
  the end of the query count now.
* C30: the placeholder player made for a reconnecting client cannot be printed, but nobody can get hold of it; only objects reachable from a record or a
  result are printed.
* C22: a helper module hid a function of the same name by a star import, which left the layout of the page undecided; found because undecided
  obligations are counted, and corrected.
* C05: the oracle for used-up pairs used a fixed list; it now follows the used tiles.
'''

KEEP = '''
## Why the tests cannot settle these

The 513 tests run some twenty records and a few dozen hands. The properties speak about every tile number (136 values in each field), every seat and pair of
seats, every call code, every order of questions or conversions, and every object shared behind the scenes. The checks cover those dimensions symbolically
or by complete enumeration, which is why the planted changes below all pass the tests.
'''


def rules():
    for f in sorted(glob.glob(os.path.join(ROOT, 'sa/checks/c*.py'))):
        d = {x.targets[0].id: x.value for x in ast.parse(open(f).read()).body if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name)}
        yield os.path.basename(f)[:3].upper(), ast.literal_eval(d['RULE']), ast.literal_eval(d['ASSUMPTIONS']) if 'ASSUMPTIONS' in d else []


def main():
    props = {p['id']: p for p in map(json.loads, open(os.path.join(ROOT, 'properties.jsonl')))}
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    tech = {c['property']: c for c in man['checks']}
    seeds = {}
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
        j = json.load(open(m))
        seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j))
    cost = {}
    for f in glob.glob(os.path.join(ROOT, 'evidence/C*.json')):
        cost[os.path.basename(f)[:3]] = json.load(open(f))
    out = [HEAD, '\n## The properties\n']
    for pid, rule, ass in rules():
        out.append('### %s %s\n' % (pid, props[pid]['title']))
        out.append('*Technique:* %s.\n' % tech[pid]['technique'].rstrip('.'))
        out.append('*How it is decided:* %s\n' % rule)
        if tech[pid].get('level_note'):
            out.append('*Bounds:* %s\n' % tech[pid]['level_note'])
        if ass:
            out.append('*Assumes:* %s.\n' % '; '.join(ass))
        if pid in seeds:
            out.append('*Planted changes it reports:* %s.\n' % '; '.join('`%s` (%s)' % (n, j['what_it_breaks']) for n, j in seeds[pid]))
    out.append('## Not applicable\n')
    for n in man['not_applicable']:
        out.append('* %s %s: %s' % (n['property'], props[n['property']]['title'] if n['property'] in props else '', n['reason']))
    out.append(KEEP)
    out.append('## Genuine defects found and repaired\n')
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        if l.startswith('fixed:'):
            out.append('* ' + l.strip()[7:])
    out.append('\nNo finding is left unrepaired.\n')
    out.append('''## Planted changes

Each change in `/verif/seeded` was written from a property's text and the code, passes the 513 tests, has a demonstration, and is reported by the check of its
property (named above). Changes that first went unnoticed, and what was strengthened: a pattern complete after seven used pairs (C05 asks patterns with eight used
tiles), small groups subtracted in place (C06 applies every collection operation to the groups tiles hand out), melds kept over a second deal when a list is
followed at once (C09), seats read from a table as text, above all `'0'` (C12), a zero cell read as nothing and a first position lost (C10), the wrong tile removed
from a winning hand (C11, the waited tile now stands in the middle), sub-ranges of three different sizes (C28). Behaviour-preserving look-alikes of such changes
(an identity test replaced by a truth test where both agree, a copy that was never written to removed, a stable sort instead of a full one, an event skipped that
changes nothing) are left alone.
''')
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
