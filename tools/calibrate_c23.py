#!/usr/bin/env python3
"""Measures bits per value of the current tree and writes checks/c23_limits.hpp (run by hand, result committed)."""
import collections, os, statistics, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = V + "/checks/c23_limits.hpp"; data = "/tmp/c23-cal.txt"
if not os.path.exists(out): open(out, "w").write("static const float c23_limits[20*2*5*2*4] = {0};\n")
if os.path.exists(data): os.remove(data)
for seed in range(101, 109):
    subprocess.check_call([sys.executable, V + "/run.py", "C23", "--seed", str(seed), "--cases", "50000", "--cap", "600"], env=dict(os.environ, VP_CALIBRATE=data))
d = collections.defaultdict(list)
for l in open(data):
    a, b = l.split(); d[int(a)].append(float(b))
lim = []
skipped = 0
for i in range(20 * 2 * 5 * 2 * 4):
    v = d.get(i, [])
    if len(v) < 15: lim.append(0); continue
    m, med = max(v), statistics.median(v)
    if m > 3 * med + 2: lim.append(0); skipped += 1
    else: lim.append(round(1.25 * m + 0.3, 2))
open(out, "w").write("// generated by tools/calibrate_c23.py\nstatic const float c23_limits[20*2*5*2*4] = {\n" + "\n".join(",".join(str(x) for x in lim[i:i+40]) + "," for i in range(0, len(lim), 40)) + "\n};\n")
print(sum(1 for x in lim if x), "cells judged,", skipped, "heavy-tailed,", len(d), "sampled")
os.remove(data)
