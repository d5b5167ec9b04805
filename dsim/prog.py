"""Program files: parsing, running, minimising."""
import os, re, subprocess, tempfile

class Prog:
    def __init__(self, text):
        self.head, self.env, self.faults, self.ops, self.decs = [], [], [], [], []
        self.replay = False
        for l in text.splitlines():
            if not l.strip() or l.startswith("#"):
                continue
            k = l.split(" ", 1)[0]
            if k == "op": self.ops.append(l)
            elif k == "dec": self.decs.append(l); self.replay = True
            elif k == "fault": self.faults.append(l)
            elif k == "env": self.env.append(l)
            elif k == "replay": self.replay = True
            else: self.head.append(l)
    def text(self):
        r = self.head + self.env + self.faults + self.ops
        if self.replay:
            r = r + ["replay"] + self.decs
        return "\n".join(r) + "\n"
    def copy(self):
        return Prog(self.text())
    def set(self, line, key, val):
        for i, l in enumerate(self.head):
            if l.startswith(line + " "):
                self.head[i] = re.sub(r" %s=\S+" % key, " %s=%s" % (key, val), l)
    def get(self, line, key):
        for l in self.head:
            if l.startswith(line + " "):
                m = re.search(r" %s=(\S+)" % key, l)
                if m: return m.group(1)

class Result:
    def __init__(self, out):
        self.st = 3; self.cls = self.sig = self.msg = ""; self.hash = self.ilv = ""; self.pcs = []; self.kv = {}
        self.raw = out
        for l in out.splitlines():
            t = l.split()
            if not t: continue
            if t[0] == "RUN":
                self.kv = dict(x.split("=", 1) for x in t[2:] if "=" in x)
                self.st = int(self.kv["st"]); self.hash = self.kv["hash"]; self.ilv = self.kv["ilv"]
            elif t[0] == "MSG":
                m = re.match(r"MSG \d+ cls=(\S+) sig=(.*?) \| (.*)", l)
                if m: self.cls, self.sig, self.msg = m.groups()
            elif t[0] == "PCS":
                self.pcs.append(t[3:])

def run_prog(exe, prog, env=None, tmp=None, dec=None, timeout=120):
    fd, path = tempfile.mkstemp(suffix=".prog", dir=tmp)
    with os.fdopen(fd, "w") as f:
        f.write(prog if isinstance(prog, str) else prog.text())
    try:
        a = [exe, "run", path] + (["--dec", dec] if dec else [])
        e = dict(os.environ); e.update(env or {})
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout,
                           errors="replace")
        return Result(r.stdout)
    finally:
        os.unlink(path)

def ddmin(items, test, budget):
    """Remove items while test(items) holds. budget: callable -> bool (may continue)."""
    n = 2
    while len(items) >= 1 and budget():
        size = max(1, len(items) // n)
        done = False
        i = 0
        while i < len(items) and budget():
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand; done = True
            else:
                i += size
        if not done:
            if size == 1: break
            n = min(len(items), n * 2)
        else:
            n = max(n - 1, 2)
    return items

def minimise(exe, prog, same, env=None, tmp=None, seconds=30, replayable=True):
    """Reduce operations, faults and scheduling decisions; `same(Result)` says whether the violation persists."""
    import time
    t0 = time.time()
    ok = lambda: time.time() - t0 < seconds
    p = prog.copy()
    tst = lambda q: same(run_prog(exe, q, env, tmp))
    # simpler schedules first
    for ch in ([("strategy", 0), ("psync", 0), ("memgap", 0), ("pspurious", 0)], [("pspurious", 0)], [("memgap", 0)]):
        if not ok(): break
        q = p.copy()
        for k, v in ch: q.set("sched", k, v)
        if tst(q): p = q
    q = p.copy(); q.set("run", "checkevery", 1)
    if ok() and p.get("run", "checkevery") != "1" and tst(q): p = q
    def with_ops(o):
        q = p.copy(); q.ops = o; return q
    p.ops = ddmin(p.ops, lambda o: tst(with_ops(o)), ok)
    for key in ("nclients", "nregs", "nq", "hwrng", "randphase", "donorm"):
        while ok():
            v = int(p.get("run", key) or 0)
            lo = 0 if key in ("hwrng", "randphase", "donorm") else 1
            if v <= lo: break
            q = p.copy(); q.set("run", key, v - 1)
            if not tst(q): break
            p = q
    def with_f(f):
        q = p.copy(); q.faults = f; return q
    if p.faults: p.faults = ddmin(p.faults, lambda f: tst(with_f(f)), ok)
    for i in range(len(p.env) - 1, -1, -1):
        if not ok(): break
        q = p.copy(); del q.env[i]
        if tst(q): p = q
    # explicit decision log
    if not p.replay and replayable:
        fd, d = tempfile.mkstemp(suffix=".dec", dir=tmp); os.close(fd)
        r = run_prog(exe, p, env, tmp, dec=d)
        q = Prog(open(d).read()); os.unlink(d)
        q.replay = True
        if same(r) and same(run_prog(exe, q, env, tmp)): p = q
    if p.replay and p.decs:
        def with_d(x):
            q = p.copy(); q.decs = x; return q
        if len(p.decs) < 20000:
            p.decs = ddmin(p.decs, lambda x: tst(with_d(x)), ok)
    return p
