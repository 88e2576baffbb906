#!/usr/bin/env python3-vt
"""check.py P01 : decide one property on /repo's current source.
exit 0 held, 1 violated (VIOLATION line), 2 the analysis itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from common import Run, Broken


def main():
    prop = sys.argv[1]
    try:
        mod = importlib.import_module(prop.lower())
        r = Run(prop)
        mod.run(r)
        rc = r.finish()
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
