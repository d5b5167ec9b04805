#!/usr/bin/env python3
"""Development aid: run a batch on 8 processes and group the violations."""
import subprocess, sys, collections, os, re
exe, wl, n, T = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
s0 = int(sys.argv[5]) if len(sys.argv) > 5 else 1
out = "/tmp/o"; os.makedirs(out, exist_ok=True)
ps = [subprocess.Popen([exe, "batch", wl, str(s0 + i), "8", str(n), str(T), out], stdout=subprocess.PIPE, text=True) for i in range(8)]
runs = 0; viol = []; cur = {}
probes = collections.Counter(); st = collections.Counter(); steps = []
for p in ps:
    for l in p.communicate()[0].splitlines():
        t = l.split()
        if t[0] == "RUN":
            runs += 1; seed = t[1]; cur = {"seed": seed, "pcs": []}
            kv = dict(x.split("=", 1) for x in t[2:] if "=" in x)
            st[kv["st"]] += 1; steps.append(int(kv["steps"])); cur["stack"] = kv["stack"]
            for k in kv:
                if k[:2] in ("p:", "f:"): probes[k] += int(kv[k])
        elif t[0] == "MSG":
            cur["msg"] = l; viol.append(cur)
        elif t[0] == "PCS":
            cur["pcs"].append(t[3:])
pcs = sorted({x for v in viol for pp in v["pcs"] for x in pp})
sym = {}
if pcs:
    o = subprocess.run(["addr2line", "-f", "-C", "-e", exe] + pcs, capture_output=True, text=True).stdout.splitlines()
    for i, x in enumerate(pcs): sym[x] = (re.sub(r"\(.*", "", o[2*i]), os.path.basename(o[2*i+1]).split(" ")[0])
def stk(p): return " < ".join("%s@%s" % sym[x] for x in p[:int(os.environ.get("DEPTH", "7"))])
g = collections.defaultdict(list)
for v in viol:
    m = re.match(r"MSG \d+ cls=(\S+) sig=(.*?) \| (.*)", v["msg"])
    top = sym[v["pcs"][0][0]][1] if v["pcs"] else ""
    key = (m.group(1), m.group(2), top) if m.group(1) in ("data_race", "crash","heap_error") else (m.group(1), m.group(2), (re.search(r"after op (\S+)", m.group(3)) or re.search(r"()$", "")).group(1))
    g[key].append(v)
print("runs", runs, dict(st), "steps med", sorted(steps)[len(steps)//2] if steps else 0, "max", max(steps or [0]), dict(probes))
for k, vs in sorted(g.items(), key=lambda x: -len(x[1])):
    v = min(vs, key=lambda v: len(v["msg"]))
    c = collections.Counter(x["stack"] for x in vs)
    print("\n%4d %s %s seeds %s" % (len(vs), k, dict(c), [x["seed"] for x in vs[:4]]))
    print("     ", v["msg"][:400])
    for p in v["pcs"]: print("       ", stk(p))
