#!/usr/bin/env python3
"""Decide one property by seeded simulation.

  check.py PROPERTY [--tier quick|thorough] [--seed N]     run the check (exit 0 held / 1 VIOLATION / 2 no answer)
  check.py --replay FILE                                    re-run a replay file against /repo's current tree
  check.py --setup                                          build only
"""
import collections, fcntl, json, os, re, subprocess, sys, tempfile, time, shutil, threading
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from prog import Prog, Result, run_prog, minimise
from plan import PLAN, ENVS, FAULTK, PROBES

BUILD = os.environ.get("DSIM_BUILD", os.path.join(VERIF, "build"))
NPROC = int(os.environ.get("DSIM_JOBS", "8"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
REPLAYS = os.path.join(BUILD, "replays")

def get_exe():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return B.build(BUILD)

SYM = {}
def sym_pcs(exe, pcss):
    """Source functions of call stacks, innermost first."""
    need = sorted({x for p in pcss for x in p} - set(SYM))
    for k in range(0, len(need), 500):
        o = subprocess.run(["addr2line", "-f", "-C", "-s", "-e", exe] + need[k:k + 500], capture_output=True, text=True).stdout.splitlines()
        for i, x in enumerate(need[k:k + 500]):
            SYM[x] = "%s (%s)" % (re.sub(r"\(.*", "", o[2 * i]), o[2 * i + 1].split(" ")[0]) if 2 * i + 1 < len(o) else "?"
    return [[SYM[x] for x in p] for p in pcss if p]
def symbolise(exe, r):
    return sym_pcs(exe, r.pcs)

def load_known(prop):
    """finding: property=<id> class=<cls> match=<regex over 'sig | msg | stack | first stack frames'> -- description"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(\S+) -- (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3).replace("\\s", " ")), m.group(4)))
    return res

class Slice:
    """One batch process: a workload, an environment profile, a range of seeds."""
    def __init__(self, exe, wl, seed0, stride, count, secs, out, env, stop):
        self.wl, self.env = wl, env
        e = dict(os.environ); e.update(env)
        self.p = subprocess.Popen([exe, "batch", wl, str(seed0), str(stride), str(count), "%.1f" % secs, out, str(stop)],
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=e)
        self.runs, self.viol, self.inc, self.ended = [], [], [], False
        self.t = threading.Thread(target=self.read); self.t.start()
    def read(self):
        cur = None
        for l in self.p.stdout:
            t = l.split()
            if not t: continue
            if t[0] == "RUN":
                kv = dict(x.split("=", 1) for x in t[2:] if "=" in x)
                cur = {"seed": int(t[1]), "kv": kv, "wl": self.wl, "env": self.env}
                self.runs.append(cur)
            elif t[0] == "MSG":
                m = re.match(r"MSG \d+ cls=(\S+) sig=(.*?) \| (.*)", l)
                cur["cls"], cur["sig"], cur["msg"] = m.groups() if m else ("?", "?", l)
                (self.viol if cur["kv"]["st"] == "2" else self.inc).append(cur)
            elif t[0] == "PCS":
                cur.setdefault("pcs", []).append(t[3:])
            elif t[0] == "FILE":
                cur["file"] = t[2]
            elif t[0] == "END":
                self.ended = True
        self.p.wait()

def run_plan(exe, plan, seed, secs, out, stop):
    """All slices of a plan: NPROC processes, the time divided between the plan's workloads by weight."""
    tot = sum(w for _, w, _ in plan)
    work = []          # (workload, env, process count share)
    alls = []
    # assign processes to workloads; with more workloads than processes run rounds
    t0 = time.time()
    shares = []
    for wl, w, envs in plan:
        shares.append([wl, w / tot * NPROC * secs, envs])
    # each process gets a queue of (workload, seconds)
    queues = [[] for _ in range(NPROC)]
    room = [secs] * NPROC
    for wl, cpu, envs in sorted(shares, key=lambda s: -s[1]):
        k = 0
        while cpu > 0.5:
            i = max(range(NPROC), key=lambda j: room[j])
            d = min(cpu, room[i], max(secs / 3.0, 6.0))
            if room[i] < 0.5: break
            queues[i].append((wl, d, envs[k % len(envs)] if envs else {}))
            room[i] -= d; cpu -= d; k += 1
    nstop = threading.Event()
    lock = threading.Lock()
    ctr = collections.Counter()
    def runq(i):
        for n, (wl, d, env) in enumerate(queues[i]):
            if nstop.is_set(): return
            with lock:
                k = ctr[wl]; ctr[wl] += 1
            s = Slice(exe, wl, seed * 1000000007 + 1 + k, 64, 1 << 40, d, out, env, stop)
            with lock: alls.append(s)
            s.t.join()
            if s.viol and stop: nstop.set()
    th = [threading.Thread(target=runq, args=(i,)) for i in range(NPROC)]
    for t in th: t.start()
    for t in th: t.join()
    return alls

def gate(exe, v, tmp):
    """The violation must reproduce exactly, twice, in fresh processes."""
    text = open(v["file"]).read()
    a = run_prog(exe, text, v["env"], tmp); b = run_prog(exe, text, v["env"], tmp)
    ok = a.st == 2 and b.st == 2 and a.hash == b.hash == v["kv"]["hash"] and a.cls == v["cls"] and a.msg == b.msg
    return ok, a

def matches(kn, cls, text):
    for c, rx, d in kn:
        if c == cls and rx.search(text): return d
    return None

def describe(exe, r, stack):
    st = symbolise(exe, r)
    return "%s | %s | %s | %s" % (r.sig, r.msg, stack, " < ".join(x for s in st for x in s[:10]))

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--setup":
        get_exe(); print("built"); return 0
    if a[0] == "--replay":
        exe = get_exe()
        text = open(a[1]).read()
        env = dict(re.findall(r"^# penv (\S+)=(\S+)$", text, re.M))
        r = run_prog(exe, text, env)
        print(r.raw, end="")
        for s in symbolise(exe, r): print("   ", " < ".join(s[:12]))
        m = re.search(r"^# property (\S+)$", text, re.M)
        if r.st == 2:
            print("VIOLATION property=%s replay=%s" % (m.group(1) if m else "?", a[1])); return 1
        return 0 if r.st == 1 else 2
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    spec = PLAN[prop]
    secs = float(os.environ.get("DSIM_SECS", spec.get(tier, {"quick": 45, "thorough": 600}[tier])))
    t0 = time.time()
    exe = get_exe()
    tb = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="dsim-")
    try:
        return decide(prop, spec, tier, seed, secs, exe, tmp, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(prop, spec, tier, seed, secs, exe, tmp, t0, tb):
    known = load_known(prop)
    slices = run_plan(exe, spec["plan"], seed, secs, tmp, 0 if known else 1)
    runs = [r for s in slices for r in s.runs]
    viol = [v for s in slices for v in s.viol]
    inc = [v for s in slices for v in s.inc]
    errors = []
    dead = [s for s in slices if not s.ended and not s.viol]
    if dead: errors.append("a batch process ended early (%s)" % ", ".join(s.wl for s in dead))
    inc_real = [v for v in inc if not v["msg"].startswith("budget")]
    if inc and len(inc) > max(3, 0.02 * len(runs)):
        errors.append("%d of %d runs gave no answer, e.g. %s" % (len(inc), len(runs), inc[0]["msg"]))
    # determinism: a sample of passing seeds re-run in fresh processes must reproduce the same event log
    det = 0
    passing = [r for r in runs if r["kv"]["st"] == "1"]
    step = max(1, len(passing) // 24)
    for r in passing[::step][:24]:
        g = subprocess.run([exe, "gen", r["wl"], str(r["seed"])], stdout=subprocess.PIPE, text=True).stdout
        x = run_prog(exe, g, r["env"], tmp)
        if x.st != 1 or x.hash != r["kv"]["hash"]:
            errors.append("seed %d of %s is not deterministic (%s vs %s)" % (r["seed"], r["wl"], x.hash, r["kv"]["hash"]))
        det += 1
    # violations: gate, match against known findings, minimise and report the first unlisted ones
    groups, seen_known = collections.OrderedDict(), collections.Counter()
    if known and viol:
        sym_pcs(exe, [p for v in viol for p in v.get("pcs", [])])
        rest = []
        for v in viol:
            text = "%s | %s | %s | %s" % (v["sig"], v["msg"], v["kv"].get("stack", ""),
                                          " < ".join(x for q in sym_pcs(exe, v.get("pcs", [])) for x in q[:10]))
            d = matches(known, v["cls"], text)
            if d: seen_known[d] += 1
            else: rest.append(v)
        viol = rest
    for v in sorted(viol, key=lambda v: int(v["kv"]["ops"])):
        groups.setdefault((v["cls"], v["sig"], v["kv"].get("stack")), []).append(v)
    reported = []
    deadline = time.time() + 150
    ungated = 0
    for key, vs in groups.items():
        for v in vs:
            if time.time() > deadline and reported: break
            d = None
            ok, r = gate(exe, v, tmp)
            if not ok:
                ungated += 1
                errors.append("violation at seed %d of %s did not reproduce identically" % (v["seed"], v["wl"]))
                continue
            text = describe(exe, r, v["kv"].get("stack", ""))
            d = matches(known, v["cls"], text)
            if d:
                seen_known[d] += 1; continue
            if len(reported) >= 3: continue
            p0 = Prog(open(v["file"]).read())
            same = lambda x: x.st == 2 and x.cls == r.cls and (x.sig == r.sig or r.cls in ("wrong_state", "data_race", "memory", "crash")) \
                and not matches(known, x.cls, describe(exe, x, v["kv"].get("stack", "")) if known else "")
            q = minimise(exe, p0, same, v["env"], tmp, seconds=40 if not reported else 10)
            fr = run_prog(exe, q, v["env"], tmp)
            path = os.path.join(REPLAYS, "%s-%s-%d.replay" % (prop, v["wl"], v["seed"]))
            with open(path, "w") as f:
                f.write("# property %s\n# workload %s seed %d\n# %s\n" % (prop, v["wl"], v["seed"], fr.msg))
                for s in symbolise(exe, fr): f.write("# at %s\n" % " < ".join(s[:12]))
                for k, x in v["env"].items(): f.write("# penv %s=%s\n" % (k, x))
                f.write(q.text())
            fr2 = run_prog(exe, open(path).read(), v["env"], tmp)
            if fr2.st != 2 or fr2.hash != fr.hash:
                errors.append("replay %s does not reproduce" % path); continue
            reported.append((path, fr, v))
            break
    for c, rx, d in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, d, "seen %d times in this run" % seen_known[d] if seen_known[d] else "not hit in this run"))
    ev = evidence(prop, spec, tier, seed, runs, inc, det, reported, seen_known, t0, tb, secs)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for path, fr, v in reported:
        print("violation: workload %s seed %d class %s: %s" % (v["wl"], v["seed"], fr.cls, fr.msg))
        for s in symbolise(exe, fr): print("    at " + " < ".join(s[:8]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d runs, %d distinct interleavings, %d violations, %.0f s" % (prop, tier, len(runs),
          ev["coverage"]["distinct_interleavings"], len(reported), time.time() - t0))
    if reported: return 1
    if errors or not runs:
        for e in errors[:10]: print("ERROR: " + e)
        if not runs: print("ERROR: no run was made")
        return 2
    return 0

def evidence(prop, spec, tier, seed, runs, inc, det, reported, seen_known, t0, tb, secs):
    tot = collections.Counter(); faults = collections.Counter(); probes = collections.Counter()
    wl = collections.Counter(); stacks = collections.Counter(); ilv = set(); hs = set(); maxerr = 0.0; nt = 0
    for r in runs:
        kv = r["kv"]; wl[r["wl"]] += 1; stacks[kv.get("stack", "?")] += 1
        ilv.add(kv["ilv"]); 
        if kv.get("nt") == "1" and kv["hash"] not in hs and int(kv["ops"]) > 0: nt += 1
        hs.add(kv["hash"])
        for k in ("steps", "dps", "sw", "pre", "fib", "sync", "ops", "chk", "simns", "alloc"): tot[k] += int(kv[k])
        try: maxerr = max(maxerr, float(kv["err"]))
        except ValueError: pass
        for k, x in kv.items():
            if k.startswith("f:"): faults[k[2:]] += int(x)
            elif k.startswith("p:"): probes[PROBES.get(k[2:], "probe " + k[2:])] += int(x)
    wall = time.time() - t0
    samples = []
    for r in runs[:: max(1, len(runs) // 4)][:4]:
        samples.append({"workload": r["wl"], "seed": r["seed"], "event_log_hash": r["kv"]["hash"], "interleaving_hash": r["kv"]["ilv"],
                        "operations": int(r["kv"]["ops"]), "steps": int(r["kv"]["steps"]), "context_switches": int(r["kv"]["sw"]),
                        "threads": int(r["kv"]["fib"])})
    cov = {
        "evaluations": len(runs), "distinct_nontrivial": nt,
        "rule": "one evaluation is one seeded simulated execution of a generated program (%s); it counts as non-trivial when it "
                "executed at least one library operation to the end of its oracle checks, and as distinct when the hash over its complete "
                "event log (scheduling decisions, observed results, injected faults) was not seen before" % spec["what"],
        "samples": samples, "runs_per_workload": dict(wl), "runs_per_layer_stack": dict(stacks),
        "seeds_per_hour": int(len(runs) / max(secs, 0.1) * 3600), "simulated_time_s": tot["simns"] / 1e9,
        "simulated_memory_accesses": tot["steps"], "scheduling_decision_points": tot["dps"], "context_switches": tot["sw"],
        "preemptions_inside_plain_code": tot["pre"], "simulated_threads": tot["fib"], "synchronisation_operations": tot["sync"],
        "library_operations": tot["ops"], "oracle_checks": tot["chk"], "heap_allocations": tot["alloc"],
        "distinct_interleavings": len(ilv), "distinct_interleavings_measure": "hash over the sequence of (decision point, thread chosen) of a run",
        "largest_relative_error_vs_tolerance": maxerr, "faults_injected": {k: faults[k] for k in faults}, "fault_kinds_available": spec.get("faults", []),
        "situations_reached": dict(probes), "inconclusive_runs": len(inc), "seeds_rerun_for_determinism": det,
        "known_findings_hit": dict(seen_known), "build_s": round(tb, 1),
        "real_components": "all 28 library translation units of the CPU build, plus the C API, compiled from /repo's working tree",
        "stubbed_components": "pthreads, clocks, hardware and device randomness, memory allocator, environment variables and (under a scratch prefix) the file system, replaced by the simulator",
    }
    return {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "wall_s": round(wall, 2),
            "violations": len(reported), "assumptions": spec.get("assumptions", []) + [
                "interleavings are sequentially consistent; weaker orderings are covered through the happens-before race detector",
                "GPU back ends are not built in this configuration"]}

if __name__ == "__main__":
    sys.exit(main())
