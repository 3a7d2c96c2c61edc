#!/bin/bash
# seed.sh <id>: confirm a planted bug on /repo (demo passes before; builds, tests pass, demo fails after) and undo it
# seed.sh <id> run : also run the property's check on the changed tree
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
tmp=$(mktemp -d); cp -r $d/. $tmp/; rm -f $tmp/*.diff $tmp/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $tmp/demo.sh >$tmp/log0 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$tmp/blog 2>&1 || { echo "$id: build fails"; tail -3 $tmp/blog; exit 2; }
bash /opt/vp/test.sh $tmp/out.json >/dev/null 2>&1
t=$(grep -o '"failed": *\[[^]]*\]' $tmp/out.json; python3 -c "import json;print(json.load(open('$tmp/out.json')))" | cut -c1-200)
timeout 300 bash $tmp/demo.sh >$tmp/log1 2>&1; r1=$?
echo "$id: demo clean=$r0 patched=$r1 tests: $t"
[ $r0 = 0 ] || tail -5 $tmp/log0
[ $r1 != 0 ] || tail -5 $tmp/log1
if [ "$2" = run ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /verif && timeout 900 python3-vt sym/check.py $p quick 2>&1 | cut -c1-300 | tail -${3:-6}
fi
rm -rf "$tmp"
