#!/usr/bin/env python3
"""dev helper: run a grid of jobs in parallel. usage: sweep.py crate entry 'range;range;...' (ranges: 0..4 or 1,2,3)"""
import sys, subprocess, json, itertools, concurrent.futures as cf, os
crate, entry, grid = sys.argv[1:4]
T = sys.argv[4] if len(sys.argv) > 4 else "200"
def rng(s):
    out = []
    for p in s.split(","):
        if ".." in p:
            a, b = p.split(".."); out += range(int(a), int(b) + 1)
        else: out.append(int(p))
    return out
jobs = list(itertools.product(*[rng(g) for g in grid.split(";")]))
def one(j):
    o = "/tmp/w/sw-%s-%s.json" % (entry, "-".join(map(str, j))); t = o + ".t"
    cmd = ["/verif/work/target-engine/release/symx", "--ll", "/verif/work/%s.ll" % crate, "--entry", entry, "--out", o, "--traces", t, "--time", T]
    for a in j: cmd += ["--arg", str(a)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    try:
        d = json.load(open(o))
    except Exception:
        return j, "FAILED %s %s" % (p.returncode, p.stderr[-300:])
    finally:
        for x in (o, t):
            if os.path.exists(x): os.remove(x)
    s = "paths %d wall %.1f reach %s" % (d["paths"], d["wall_s"], d["reach"])
    if d["incomplete"]: s += " INCOMPLETE %d %s" % (len(d["incomplete"]), d["incomplete"][:1])
    for v in d["violations"]: s += "\n    VIOL %s %s %s" % (v["kind"], v["msg"], v["stack"][:4])
    return j, s
os.makedirs("/tmp/w", exist_ok=True)
with cf.ThreadPoolExecutor(8) as ex:
    n = 0; worst = 0; reach = {}
    for j, s in ex.map(one, jobs):
        n += 1
        if os.environ.get("ALL") or "VIOL" in s or "INCOMPLETE" in s or "FAILED" in s: print(j, s)
        import re
        m = re.search(r"wall ([\d.]+) reach (\{.*?\})", s)
        if m:
            worst = max(worst, float(m.group(1)))
            reach.setdefault(tuple(sorted(eval(m.group(2)))), []).append(j)
    print(n, "jobs, worst", worst)
    for r, v in reach.items(): print(r, len(v), v if len(v) < 40 else "")
