#!/bin/bash
# bug.sh ID [nocheck]: apply seeded/ID in /repo, build, run tests, demo and this property's quick check, undo.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain -uno)" ] || { echo "repo not clean"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
git apply --check $d/patch.diff || exit 9
[ "$2" = onlycheck ] || { bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean build failed"; exit 9; }; bash $d/demo.sh >/tmp/demo.out 2>&1; echo "$id demo clean: rc=$?  $(tail -1 /tmp/demo.out)"; }
git apply $d/patch.diff
if [ "$2" != onlycheck ]; then
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.out 2>&1; python3 - <<P
import json; t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed',b.get('stable',b)); m=[x for x in b if x not in t['passed']]; print('$id tests passed:',len(t['passed']),'missing:',m)
P
bash $d/demo.sh >/tmp/demo.out 2>&1; echo "$id demo patched: rc=$?  $(tail -1 /tmp/demo.out)"; fi
[ "$2" = nocheck ] || { cd /verif; VERIF_SEED=1 timeout 900 python3 tools/check.py $prop --tier quick --no-min --no-evidence 2>&1 | grep -v '^ *$' | tail -4; }
