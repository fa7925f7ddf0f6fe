#!/usr/bin/env python3-vt
"""run.py <ID> [--tier quick|thorough] [--seed N] [--part NAME] [--scale X]
run.py <ID> --replay FILE"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONUTF8', '1')
from vf import repo  # noqa: E402,F401
from vf import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--part', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        prop = importlib.import_module('vf.checks.' + a.pid.lower()).PROP
    except Exception as e:
        # the code under test does not even import: nothing holds
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if any(os.path.abspath(f.filename).startswith(repo.REPO + os.sep)
               for f in tb):
            path = engine.write_import_failure(a.pid, traceback.format_exc())
            print('VIOLATION property=%s replay=%s' % (a.pid, path))
            print('  the package cannot be imported: %r' % e)
            return 1
        raise
    if a.replay:
        return engine.replay(prop, a.replay)
    return engine.run(prop, a.tier, a.seed, a.part, a.scale)


if __name__ == '__main__':
    sys.exit(main())
