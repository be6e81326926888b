"""run.py PROPERTY [quick|thorough] -- decide one property of /repo's current source."""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import report


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    from checks import REGISTRY
    mod, fn = REGISTRY[prop].split(':')
    try:
        findings, coverage = getattr(importlib.import_module('checks.' + mod), fn)(prop, tier)
    except Exception as e:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s %s: %s' % (prop, type(e).__name__, e))
        return 2
    return report.finish(prop, tier, t0, findings, coverage)


if __name__ == '__main__':
    sys.exit(main())
