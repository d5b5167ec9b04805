#!/usr/bin/env python3
"""Development aid: turn tools-side seed descriptions (a python file defining SEEDS) into seeded/<id>/ folders."""
import os, subprocess, sys, json, shutil, runpy
SEEDS = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
R = '/verif/seeded'
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour holds, nonzero when it does not. Run with cwd at the repository root, after a build.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -I"$PWD/include" -I"$PWD/include/common" -I"$PWD/_build/include/common" -I"$PWD/_build/include" -mrdrnd -DBOOST_AVAILABLE=1 -DENABLE_RDRAND=1 -std=c++14 -O1 %s"$D/demo.cpp" -o "$T/demo" "$PWD/_build/libqrack.a" -lpthread
cd "$T"
%s./demo
'''
for s in SEEDS:
    if only and s['id'] not in only: continue
    w = '/tmp/sd/w'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    os.makedirs(w)
    subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x', shell=True)
    for f, old, new in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    d = os.path.join(R, s['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (s.get('flags', ''), s.get('env', '')))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(w)
    print(s['id'])
