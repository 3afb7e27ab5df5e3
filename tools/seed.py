"""Make one planted change: python3 tools/seed.py SPEC.py

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
DEMO (text of demo.py).  The patch is made in a scratch copy, the demonstration
is run on both trees; with --tests the stable tests are run on the changed copy.
"""
import json, os, runpy, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pypyvenv/bin/python'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\n"
SH = '#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY


def main(path, tests):
    s = runpy.run_path(path)
    work = '/tmp/seed_%d' % os.getpid()
    shutil.copytree('/repo', work, symlinks=True)
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(work, f)
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                print(s['ID'], 'NOT UNIQUE', f, t.count(old), old[:60])
                return 1
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', work, 'diff'], capture_output=True, text=True).stdout
        d = os.path.join(ROOT, 'seeded', s['ID'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(HEAD + s['DEMO'].lstrip())
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        a = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run([d + '/demo.sh'], cwd=work, capture_output=True, text=True)
        msg = '%s unchanged=%d changed=%d' % (s['ID'], a.returncode, b.returncode)
        if a.returncode:
            msg += '\n  ' + (a.stdout + a.stderr)[-300:]
        else:
            msg += '  ' + (b.stdout + b.stderr).strip().split('\n')[-1][-160:]
        if tests:
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
                                '--ignore=tests/test_checker.py', '--ignore=tests/paifu/test_tenhouRecord.py', 'tests'], cwd=work,
                               capture_output=True, text=True, timeout=600, env={**os.environ, 'PYTHONPATH': work})
            msg += '\n  tests: ' + t.stdout.strip().split('\n')[-1][-160:]
        print(msg)
    finally:
        shutil.rmtree(work)


main(sys.argv[1], '--tests' in sys.argv)
