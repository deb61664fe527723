#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current source.
exit 0 held / exit 1 with a VIOLATION line / exit 2 analysis could not be carried out."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf.prog import AnalysisError
from vf.report import Report


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        R = Report(pid)
        text = mod.run(R)
        return R.finish(text or mod.__doc__)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        tb = traceback.format_exc().splitlines()
        print('\n'.join(tb[:6] + ['...'] + tb[-24:] if len(tb) > 40 else tb), file=sys.stderr)
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 2


if __name__ == '__main__':
    sys.exit(main())
