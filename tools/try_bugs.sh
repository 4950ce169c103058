#!/bin/bash
# try_bugs.sh ID...: apply each planted bug to /repo, run the check of its property, undo; records results in tools/bug_results.json
cd "$(dirname "$0")/.."
for id in "${@:-$(ls seeded)}"; do for b in $id; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
 [ -z "$(git -C /repo status --porcelain)" ] || { echo /repo not clean; exit 9; }
 git -C /repo apply "$PWD/seeded/$b/patch.diff" || exit 9
 s=$(date +%s); out=$(./run.sh $p 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 'key:')"
 python3 - "$b" "$p" "$rc" "$(echo "$out" | grep -m1 'key:' | sed 's/.*key: *//')" <<'P'
import json,sys,os
f='tools/bug_results.json'; d=json.load(open(f)) if os.path.exists(f) else {}
b,p,rc,key=sys.argv[1:]
d[b]=f'{p}: `{key[:60]}`' if rc=='1' else 'missed'
json.dump(dict(sorted(d.items())),open(f,'w'),indent=0)
P
done; done
