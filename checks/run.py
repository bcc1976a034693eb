#!/usr/bin/env python3
"""checks/run.py <property id>: one check. Exit 0 held, 1 violated, 2 the check itself failed."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk
pid = sys.argv[1]
try:
    c = vk.Check(pid)
    importlib.import_module(pid.lower()).run(c)
    rc = c.finish()
except vk.Broken as e:
    print('CHECK-ERROR %s: %s' % (pid, e)); rc = 2
except Exception:
    traceback.print_exc(); rc = 2
sys.exit(rc)
