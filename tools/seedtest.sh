#!/bin/bash
# Development aid: seedtest.sh ID [notest] -- apply seeded/ID/patch.diff to a scratch copy, build, test, run the demo on both trees, run the check.
set -u
id=$1; D=/verif/seeded/$id; W=/tmp/pb; prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $W
[ -d $W/_build ] || cp -a /repo/. $W/
rsync -rlp --checksum --delete --exclude _build --exclude _b --exclude tr --exclude .git /repo/ $W/
cd $W && if ! patch -p1 -s --dry-run < $D/patch.diff >/dev/null; then echo "$id: patch does not apply"; exit 1; fi
patch -p1 -s < $D/patch.diff
export CC=gcc CXX=g++ LC_ALL=C.UTF-8
cmake -S $W -B $W/_b -G Ninja -DCMAKE_BUILD_TYPE=Release -DENABLE_OPENCL=OFF -DENABLE_CUDA=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/dev/null 2>&1
ninja -C $W/_b qrack qrack_pinvoke unittest >/tmp/pb.log 2>&1 || { echo "$id: BUILD FAILED"; tail -5 /tmp/pb.log; exit 1; }
if [ "${2:-}" != notest ]; then
  mkdir -p $W/tr; python3 /opt/vp/run_tests.py $W/_b/unittest $W/tr/lines.txt >/dev/null 2>&1
  python3 /opt/vp/results.py $W/tr/out.json lines:$W/tr/lines.txt >/dev/null 2>&1
  python3 -c "
import json;a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);b=set(json.load(open('$W/tr/out.json'))['passed']);print('$id: tests failing:',len(a-b),sorted(a-b)[:4])"
fi
rm -rf $W/_build; ln -sfn $W/_b $W/_build
(cd $W && timeout 300 bash $D/demo.sh >/tmp/pb.demo1 2>&1); echo "$id: demo with patch: $?"
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/pb.demo0 2>&1); echo "$id: demo on /repo: $?"
if [ "${2:-}" != demo ]; then
cd /verif && DSIM_REPO=$W DSIM_BUILD=/tmp/pbb timeout 900 python3 dsim/check.py $prop > /tmp/pb.chk 2>&1; echo "$id: check $prop exit $?"; grep -E "violation:|VIOLATION|ERROR" /tmp/pb.chk | head -4
fi
