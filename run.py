#!/usr/bin/env python3-vt
"""entry point of every check:  run.py P01"""
import sys, os, time, traceback, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vt


def main():
    pid = sys.argv[1]
    t0 = time.time()
    try:
        mod = importlib.import_module(pid.lower())
        run = vt.Run(pid)
        return mod.check(run, t0)
    except vt.Broken as e:
        print("ERROR %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR %s: exception" % pid)
        return 2


sys.exit(main())
