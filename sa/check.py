"""python3 -m sa.check C01 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import threading
import time

from . import report
from .report import Report


KEEP = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    mod = importlib.import_module('sa.checks.' + a.property.lower())
    rep = Report(a.property, a.tier, mod.RULE)
    rep.notes.extend(getattr(mod, 'ASSUMPTIONS', []))
    KEEP['rep'] = rep
    with rep.group('analysis'):
        mod.run(rep)
    code = rep.finish()
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 30)
    t = threading.Thread(target=main)
    t.start()
    t.join(max(1, report.DEADLINE + 100 - time.time()))
    if t.is_alive():
        rep = KEEP['rep']
        rep.undecided('analysis', '', 'out of time')
        code = rep.finish()
        sys.stdout.flush()
        os._exit(code)
