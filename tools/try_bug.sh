#!/bin/bash
# tools/try_bug.sh ID [CHECK...]: confirms one planted bug in a private mount
# namespace over scratch copies of /repo and /verif, and runs checks against it.
# Development tool; no check uses it.
id=$1; shift
S=/tmp/pl/$id
rm -rf "/tmp/pl/$id"; mkdir -p "$S"
cp -a /repo "$S/repo"; mkdir -p "$S/verif" "$S/demo"
(cd /verif && git ls-files -z --cached --others --exclude-standard | grep -zv '^seeded/' | xargs -0 cp -a --parents -t "$S/verif")
cp -a /verif/seeded/$id/. "$S/demo/"
prop=$(python3 -c "import json;print(json.load(open('$S/demo/meta.json'))['property'])")
cp "$S/demo/patch.diff" "$S/patch.diff"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
export S id prop CHECKS="${*:-$prop}" NOTEST
unshare -m bash -c '
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
bash /opt/vp/build.sh >$S/build0.log 2>&1
timeout 300 bash $S/demo/demo.sh >$S/demo0.log 2>&1; echo "$id demo-clean=$?"
git apply $S/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$S/build1.log 2>&1 || { echo "$id BUILD FAILS"; tail -20 $S/build1.log; exit 1; }
timeout 300 bash $S/demo/demo.sh >$S/demo1.log 2>&1; echo "$id demo-bug=$?"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $S/o.json >$S/test.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$S/o.json"))
st=b.get("stable") or b.get("passed") or b
st=set(st if isinstance(st,list) else st.keys())
m=sorted(st-set(o["passed"])); print("$id tests:", "pass" if not m else "FAIL "+str(m))
P
fi
cd /verif
for c in $CHECKS; do VERIF_SEED=1 VERIF_TIER=quick python3 check.py $c >$S/check-$c.log 2>&1; echo "$id check $c: rc=$? $(grep -h VIOLATION $S/check-$c.log) $(grep -h -m1 ":" $S/check-$c.log | cut -c1-160)"; done
'
rm -rf "$S/repo" "$S/verif"
