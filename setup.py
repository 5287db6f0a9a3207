#!/usr/bin/env python3-vt
"""setup_cmd: builds all harness binaries once (checks rebuild what changed)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vt
try:
    vt.build(*[n for n in vt.targets() if n != "h5r" or os.path.exists(vt.HARN + "/h5r.c")])
except vt.Broken as e:
    print("setup: %s" % e)
    sys.exit(1)
