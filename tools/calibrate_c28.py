#!/usr/bin/env python3
"""Measures steps and memory of the current tree and writes checks/c28_limits.hpp (run by hand, result committed)."""
import collections, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
data = "/tmp/c28-cal.txt"
if os.path.exists(data): os.remove(data)
for seed in range(101, 107):
    subprocess.check_call([sys.executable, V + "/run.py", "C28", "--seed", str(seed), "--cases", "25000", "--cap", "900"], env=dict(os.environ, VP_CALIBRATE=data))
d = collections.defaultdict(list)
for l in open(data):
    f = l.split(); d[int(f[0])].append(tuple(map(float, f[1:6])))
rows = []; worst = 0
for k in range(192):
    v = d.get(k, []); row = []
    for i in range(1, 5):
        small = [x[i] for x in v if x[0] <= 64]; big = [x for x in v if x[0] > 2000]
        if len(small) < 20 or len(big) < 20 or max(small) == 0: row.append((0, 0)); continue
        a = max(small); b = max(max((x[i] - a) / x[0] for x in big), 30)
        row.append((2 * a, round(3 * b, 1)))
        worst = max(worst, max(x[i] / (row[-1][0] + row[-1][1] * x[0]) for x in v))
    rows.append("{" + ",".join("{%g,%g}" % r for r in row) + "}")
open(V + "/checks/c28_limits.hpp", "w").write("// generated by tools/calibrate_c28.py: start-up cost and cost per value\nstatic const double c28_limits[192][4][2] = {\n" + ",\n".join(rows) + "\n};\n")
print("worst calibration case at %.2f of its limit" % worst)
os.remove(data)
