"""Run the check of each planted change's property on a scratch copy with the change applied.
python3 tools/seedrun.py [ID ...]   (prefix match)"""
import json, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    sid = os.path.basename(d)
    prop = json.load(open(d + '/meta.json'))['property']
    if not os.path.exists('%s/sa/checks/%s.py' % (ROOT, prop.lower())):
        return '%-45s %s  no check' % (sid, prop)
    w = '/tmp/sr_' + sid
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
        p = subprocess.run([sys.executable, '-m', 'sa.check', prop], cwd=ROOT, capture_output=True, text=True,
                           env={**os.environ, 'VERIF_REPO': w, 'VERIF_EVIDENCE': '/tmp/ev_' + sid}, timeout=900)
        lines = [l for l in p.stdout.split('\n') if l]
        return '%-45s %s rc=%d %s' % (sid, prop, p.returncode, (lines[0] if lines else '')[:200])
    finally:
        shutil.rmtree(w)
        shutil.rmtree('/tmp/ev_' + sid, ignore_errors=True)


ds = sorted(glob.glob(ROOT + '/seeded/*'))
if sys.argv[1:]:
    ds = [d for d in ds if any(os.path.basename(d).startswith(a) for a in sys.argv[1:])]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ds):
        print(r, flush=True)
