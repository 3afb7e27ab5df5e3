"""Collecting obligations and writing the verdict."""
import io
import json
import multiprocessing
import os
import pickle
import resource
import selectors
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEADLINE = time.time() + float(os.environ.get('VERIF_DEADLINE') or 600)
KNOWN = os.path.join(VERIF, 'known_findings.txt')


LOADED = []                     # set once the source of the repository has been read


class Undecided(Exception):
    pass


class Report:
    def __init__(self, pid, tier, rule):
        self.pid = pid
        self.tier = tier
        self.rule = rule
        self.t0 = time.time()
        self.obs = []            # (status, name, where, detail)
        self.notes = []
        self.analysed = {}
        self.functions = set()
        self.counts = {}
        self.depth = 0

    def ok(self, name, where='', detail=''):
        self.obs.append(('holds', name, where, detail))

    def bad(self, name, where, detail):
        self.obs.append(('violated', name, where, detail))

    def undecided(self, name, where='', detail=''):
        self.obs.append(('undecided', name, where, detail))

    def decide(self, cond, name, where='', detail=''):
        """cond: True holds, False violated, None undecided"""
        if cond is True:
            self.ok(name, where)
        elif cond is False:
            self.bad(name, where, detail)
        else:
            self.undecided(name, where, detail)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def parallel(self, items, fn, jobs=None, limit=120):
        """fn(item) for every item in forked children; their obligations are
        collected here in the order of the items"""
        items = list(items)
        jobs = min(jobs or os.cpu_count() or 1, len(items)) or 1
        if jobs == 1:
            for x in items:
                fn(x)
            return
        sys.stdout.flush()
        kids = []
        todo = multiprocessing.get_context('fork').Value('i', 0)
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, too_long)
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    with os.fdopen(w, 'wb') as f:
                        while True:
                            with todo.get_lock():
                                i = todo.value
                                todo.value += 1
                            if i >= len(items):
                                break
                            self.obs, self.counts, self.functions, self.notes = [], {}, set(), []
                            self.depth = 0
                            x = items[i]
                            # repeated, as the first one may be raised where exceptions are dropped
                            try:
                                signal.setitimer(signal.ITIMER_REAL, max(1, min(limit, DEADLINE - time.time())), 5)
                                with self.group(str(x[0] if isinstance(x, tuple) else x)):
                                    fn(x)
                                signal.setitimer(signal.ITIMER_REAL, 0)
                            except TimeoutError:
                                signal.setitimer(signal.ITIMER_REAL, 0)
                            pickle.dump((i, self.obs, self.counts, self.functions, self.notes), f)
                            f.flush()
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        res = []
        for data in drained(kids):
            f = io.BytesIO(data)
            while f.tell() < len(data):
                try:
                    res.append(pickle.load(f))
                except (EOFError, pickle.UnpicklingError):
                    break                   # cut off in the middle of one
        done = {x[0] for x in res}
        for i, obs, counts, funcs, notes in sorted(res, key=lambda x: x[0]):
            self.obs.extend(obs)
            for k, v in counts.items():
                self.count(k, v)
            self.functions |= funcs
            self.notes.extend(n for n in notes if n not in self.notes)
        for i, x in enumerate(items):
            if i not in done:
                self.undecided(str(x), '', 'the analysis process ended')

    def group(self, name):
        return Group(self, name)

    # ------------------------------------------------------------ verdict
    def finish(self):
        seen = set()
        obs = []
        for o in self.obs:
            k = o
            if k in seen:
                continue
            seen.add(k)
            obs.append(o)
        held = [o for o in obs if o[0] == 'holds']
        bad = [o for o in obs if o[0] == 'violated']
        und = [o for o in obs if o[0] == 'undecided']
        known = load_known(self.pid)
        listed = []
        viol = []
        for o in bad:
            k = '%s @ %s' % (o[1], stable_where(o[2]))
            if k in known:
                listed.append((o, known[k]))
            else:
                viol.append(o)
        ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        replay = os.path.join(ev, self.pid + '.replay.json')
        rec = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'wall_s': round(time.time() - self.t0, 3),
            'coverage': {
                'explanation': self.rule,
                'obligations': len(obs), 'discharged': len(held), 'undecided': len(und), 'violated': len(bad),
                'functions_analysed': len(self.functions), 'counts': self.counts,
                'obligation_list': ['%s: %s%s' % (o[0], o[1], ' @ ' + o[2] if o[2] else '') for o in obs][:400],
                'undecided_list': ['%s @ %s: %s' % (o[1], o[2], o[3]) for o in und][:100],
                'functions': sorted(self.functions)[:400],
            },
            'assumptions': self.notes,
            'violations': [{'what': o[1], 'where': o[2], 'detail': o[3]} for o in viol],
        }
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(rec, f, indent=1, ensure_ascii=False)
            f.write('\n')
        for o, text in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        print('%s: %d obligations, %d hold, %d violated, %d undecided, %d functions analysed, %.1fs' % (
            self.pid, len(obs), len(held), len(bad), len(und), len(self.functions), time.time() - self.t0))
        for o in und[:20]:
            print('  undecided: %s @ %s %s' % (o[1], o[2], o[3][:300]))
        if viol:
            with open(replay, 'w') as f:
                json.dump({'property': self.pid, 'command': 'python3 -m sa.check %s' % self.pid, 'violations': rec['violations']}, f, indent=1, ensure_ascii=False)
            for o in viol[:20]:
                print('  %s @ %s: %s' % (o[1], o[2], o[3][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        if not held:
            print('UNDECIDED: no obligation of %s could be decided on this tree' % self.pid)
            return 0 if LOADED else 2       # nothing was refuted; 2 is for source that cannot even be read
        return 0


def drained(kids):
    """what every child wrote; children that are still running well after the deadline are ended"""
    got = {r: [] for _, r in kids}
    with selectors.DefaultSelector() as sel:
        for r in got:
            sel.register(r, selectors.EVENT_READ)
        while sel.get_map():
            for key, _ in sel.select(max(0.1, DEADLINE + 25 - time.time())):
                b = os.read(key.fd, 1 << 20)
                if b:
                    got[key.fd].append(b)
                else:
                    sel.unregister(key.fd)
            if time.time() > DEADLINE + 25:
                for pid, r in kids:
                    if r in sel.get_map():
                        os.kill(pid, signal.SIGKILL)
                        sel.unregister(r)
    for pid, r in kids:
        os.close(r)
        os.waitpid(pid, 0)
    return [b''.join(x) for x in got.values()]


def too_long(*a):
    raise TimeoutError('analysis time limit')


class Group:
    """one unit of analysis: failures of the analyser make it undecided"""

    def __init__(self, rep, name):
        self.rep = rep
        self.name = name

    def __enter__(self):
        self.rep.depth += 1
        return self

    def __exit__(self, t, e, tb):
        self.rep.depth -= 1
        if t is None:
            return False
        if issubclass(t, (KeyboardInterrupt, SystemExit)):
            return False
        if issubclass(t, TimeoutError) and self.rep.depth > 0:
            return False            # the whole unit is out of time
        last = traceback.extract_tb(tb)[-1]
        self.rep.undecided(self.name, '', '%s: %s (%s:%d)' % (t.__name__, e, os.path.basename(last.filename), last.lineno))
        if os.environ.get('VERIF_DEBUG') and not self.rep.__dict__.get('shown'):
            self.rep.shown = True
            traceback.print_exception(t, e, tb, limit=-6)
        return True


def stable_where(w):
    """a location without its line number"""
    return ':'.join(p for p in w.split(':') if not p.isdigit())


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                body = line.split(' ', 2)[2]
                key, _, text = body.partition(' || ')
                out[key] = text
    return out
