#!/usr/bin/env python3-vt
"""run.py <PROPERTY> [quick|thorough]   explore one property
   run.py --replay FILE                 replay a recorded violation on the real code"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ["PYTHONHASHSEED"] != "0" or "VT_HS" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["VT_HS"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.setrecursionlimit(20000)
from vt import harness

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--replay-batch":
        harness.replay_batch(a[1])
        sys.exit(0)
    if a[0] == "--replay":
        sys.exit(harness.replay_file(a[1]))
    sys.exit(harness.main(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
