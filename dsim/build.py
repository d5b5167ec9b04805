#!/usr/bin/env python3
"""Build the simulator binary from /repo's current working tree (into a directory git ignores)."""
import json, os, shlex, subprocess, sys, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSIM_REPO", "/repo")

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit("dsim: build step failed: %s" % (" ".join(cmd) if isinstance(cmd, list) else cmd))
    return r.stdout

def build(out):
    os.makedirs(out, exist_ok=True)
    cfg = os.path.join(out, "cfg")
    sh(["cmake", "-S", REPO, "-B", cfg, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DENABLE_OPENCL=OFF",
        "-DENABLE_CUDA=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
    cc = json.load(open(os.path.join(cfg, "compile_commands.json")))
    rt = os.path.join(HERE, "rt")
    ha = os.path.join(HERE, "harness")
    inst = "-O1 -g1 -fsanitize=thread -fno-pie -fno-omit-frame-pointer -Wno-error -Wno-tsan -include %s/pre.h" % rt
    plain = "-O2 -g1 -fno-pie -fno-tree-loop-distribute-patterns -fno-builtin-memset -fno-exceptions"
    lines = ["rule cc", "  command = $cmd -MD -MF $out.d -o $out -c $in", "  depfile = $out.d", "  deps = gcc",
             "  description = CC $out", ""]
    objs, flags = [], None
    for e in cc:
        o = e.get("output") or re.search(r"-o (\S+)", e["command"]).group(1)
        if not (o.startswith("CMakeFiles/qrack.dir/") or o.startswith("CMakeFiles/qrack_pinvoke.dir/src/pinvoke_api")):
            continue
        a = shlex.split(e["command"])
        keep, skip = [], False
        for x in a[1:]:
            if skip:
                skip = False
                continue
            if x in ("-o", "-c"):
                skip = True
                continue
            if x.startswith("-O") or x == "-Werror" or x == "-fPIC" or x.startswith("-flto"):
                continue
            keep.append(x)
        fl = " ".join(shlex.quote(x) for x in keep)
        if flags is None:
            flags = fl
        obj = os.path.join(out, "sut", o.replace("/", "_"))
        objs.append(obj)
        lines += ["build %s: cc %s" % (obj, e["file"]), "  cmd = %s %s %s" % (a[0], fl, inst)]
    hobjs = []
    hflags = re.sub(r"-std=\S+", "", flags)
    for f in sorted(os.listdir(ha)):
        if not f.endswith(".cpp"):
            continue
        obj = os.path.join(out, "h_" + f + ".o")
        if f == "ref.cpp":
            lines += ["build %s: cc %s" % (obj, os.path.join(ha, f)), "  cmd = g++ -std=c++17 %s -I%s" % (plain, rt)]
        else:
            lines += ["build %s: cc %s" % (obj, os.path.join(ha, f)),
                      "  cmd = g++ %s -std=c++17 -Wno-deprecated-declarations %s -I%s -I%s" % (hflags, inst, rt, ha)]
        hobjs.append(obj)
    rto = os.path.join(out, "rt.o")
    lines += ["build %s: cc %s" % (rto, os.path.join(rt, "rt.cpp")),
              "  cmd = g++ -std=c++17 %s" % plain.replace("-fno-exceptions", "")]
    src = open(os.path.join(rt, "rt.cpp")).read()
    wraps = sorted(set(re.findall(r"__wrap_(\w+)", src)))
    wl = " ".join("-Wl,--wrap=%s" % w for w in wraps)
    exe = os.path.join(out, "sim")
    lines += ["rule ld", "  command = g++ -no-pie -static-libstdc++ -static-libgcc -o $out $in %s -lpthread" % wl,
              "  description = LD $out",
              "build %s: ld %s" % (exe, " ".join(objs + hobjs + [rto])), "default %s" % exe, ""]
    with open(os.path.join(out, "build.ninja"), "w") as f:
        f.write("\n".join(lines))
    sh(["ninja", "-C", out, "-j", str(os.cpu_count() or 8)])
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(HERE), "build")))
