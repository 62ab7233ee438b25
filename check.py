#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property (see DESIGN.md)."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vplib

def main():
    pid = sys.argv[1]
    only = None
    if "--replay" in sys.argv:
        only = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    try:
        mod = importlib.import_module(pid)
        res = mod.run(only)
        return vplib.report(res)
    except vplib.CheckError as e:
        print("CHECK ERROR %s: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); return 3

if __name__ == "__main__":
    sys.exit(main())
