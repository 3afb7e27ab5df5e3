"""Run checks against an edited scratch copy of the source.

usage: trial.py CHECKS FILE OLD NEW [FILE OLD NEW ...]
CHECKS is a comma separated list or 'all'. The copy lives in a temporary directory."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy():
    d = tempfile.mkdtemp(prefix='trial')
    for n in os.listdir('/repo'):
        if n in ('.git', 'node_modules', 'tests') or n.endswith('.egg-info'):
            continue
        s = os.path.join('/repo', n)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, n))
    return d


def checks(arg):
    if arg != 'all':
        return arg.split(',')
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'sa/checks')) if f.startswith('c') and f.endswith('.py'))


def run(d, cs, quiet=False):
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, 'evidence'))
    ps = [(c, subprocess.Popen([sys.executable, '-m', 'sa.check', c], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cs]
    res = {}
    for c, p in ps:
        out = p.communicate()[0]
        res[c] = p.returncode, out
    return res


if __name__ == '__main__':
    d = copy()
    try:
        a = sys.argv[2:]
        for i in range(0, len(a), 3):
            f = os.path.join(d, a[i])
            s = open(f, encoding='utf-8').read()
            assert s.count(a[i + 1]) >= 1, 'text not found in ' + a[i]
            open(f, 'w', encoding='utf-8').write(s.replace(a[i + 1], a[i + 2], 1))
        for c, (rc, out) in run(d, checks(sys.argv[1])).items():
            lines = out.strip().splitlines()
            print(c, rc, '\n   '.join(x[:250] for x in lines[:4] if rc or 'undecided' in x and ' 0 undecided' not in x))
    finally:
        shutil.rmtree(d)
