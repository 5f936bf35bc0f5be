#!/bin/bash
# seed.sh ID [check]: confirms a planted bug in a scratch copy of /repo: builds, passes the stable tests,
# demo fails with it and passes without it. With "check": runs the property's check against the scratch copy.
set -u
id=$1
S=/tmp/sw/$id
d=$(realpath "$(dirname "$0")/../seeded/$id")
mkdir -p $S
rm -rf $S/repo
git -C /repo worktree prune
cp -a /repo $S/repo
rm -rf $S/repo/_build
cd $S/repo || exit 2
sed "s#/repo#$S/repo#g" /opt/vp/build.sh > $S/build.sh
sed "s#/repo#$S/repo#g; s#/opt/vp/build.sh#$S/build.sh#g" /opt/vp/test.sh > $S/test.sh
rc=0
if [ "${2:-}" != check ]; then
  bash $S/build.sh > $S/build0.log 2>&1 || { echo "$id base build failed"; exit 2; }
  bash $d/demo.sh > $S/demo0.log 2>&1; r0=$?
fi
git apply $d/patch.diff || { echo "$id patch does not apply"; exit 2; }
if [ "${2:-}" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /verif && DV_REPO=$S/repo DV_EVID=$S/evid timeout 900 python3-vt -m dv.check $p | tail -4 | cut -c1-300; r=${PIPESTATUS[0]}
  echo "$id check $p exit $r"
else
  bash $S/test.sh $S/out.json > $S/test.log 2>&1
  tail -1 $S/test.log
  python3 - $S/out.json <<'P' || rc=1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open(sys.argv[1]))
m=b-set(o['passed'])
print('missing from baseline:',len(m),sorted(m)[:5])
sys.exit(1 if m else 0)
P
  bash $d/demo.sh > $S/demo1.log 2>&1; r1=$?
  echo "$id demo base $r0 patched $r1 tests rc $rc"
fi
cd /; rm -rf $S/repo
