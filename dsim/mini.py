#!/usr/bin/env python3
"""Development aid: minimise a failing program file.  mini.py EXE FILE [seconds]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prog import *
exe, f = sys.argv[1], sys.argv[2]
p = Prog(open(f).read())
r0 = run_prog(exe, p)
same = lambda r: r.st == 2 and r.cls == r0.cls and (r.sig == r0.sig or r0.cls == "wrong_state")
q = minimise(exe, p, same, seconds=float(sys.argv[3]) if len(sys.argv) > 3 else 20)
print(q.text())
r = run_prog(exe, q)
print(r.msg)
import subprocess
for pc in r.pcs:
    o = subprocess.run(["addr2line", "-f", "-C", "-s", "-e", exe] + pc, capture_output=True, text=True).stdout.splitlines()
    print("   ", " < ".join("%s@%s" % (o[i].split("(")[0], o[i + 1].split(" ")[0]) for i in range(0, len(o), 2)))
