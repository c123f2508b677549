#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))
import extract
import vlib


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    mod = importlib.import_module(pid.lower())
    try:
        prog = vlib.load()
    except extract.ExtractError as e:
        print('cannot analyse: %s' % e)
        return 3
    ck = vlib.Check(pid, prog, tier)
    try:
        mod.check(ck)
    except vlib.Missing as e:
        # the code was reorganised beyond what the analysis can follow: nothing is claimed about it
        print('UNDECIDED property=%s: anchor missing: %s' % (pid, e))
        ck.unsure('anchor missing: %s' % e)
    except vlib.Cap as e:
        ck.unsure('analysis cap: %s' % e)
    except Exception as e:
        traceback.print_exc()
        ck.unsure('analysis gave up: %r' % e)
    else:
        ck.floor('obligations', ck.oblig, getattr(mod, 'MIN_OBLIGATIONS', 1))
    return ck.finish(getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    sys.exit(main())
