#!/bin/bash
# seedtest.sh ID [check...]: try one planted bug in a private copy of /repo (mount namespace). Developer tool, no check uses it.
id=$1; shift
if [ -z "$SEEDNS" ]; then exec env SEEDNS=1 unshare -m bash "$0" "$id" "$@"; fi
d=/verif/seeded/$id
w=/tmp/w/s-$id
rm -rf "/tmp/w/s-$id"; mkdir -p "$w/work"
cp -a /repo "$w/repo"; cp -a /verif "$w/verif"
cp -a "$d" "$w/demo"
mount --bind "$w/repo" /repo; mount --bind "$w/work" /opt/vp/work; mount --bind "$w/verif" /verif
cd /repo
prop=$(python3 -c "import json;print(json.load(open('$w/demo/meta.json'))['property'])")
timeout 300 bash "$w/demo/demo.sh" > "$w/demo0.log" 2>&1; echo "$id demo on unchanged tree: rc=$?"
git apply "$w/demo/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 2; }
for p in ${*:-$prop}; do
  (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > "$w/check.$p.log" 2>&1; rc=$?; echo "$id check $p rc=$rc"; grep -v "^$p " "$w/check.$p.log" | cut -c1-300 | head -6)
done
if [ -z "$NOTEST" ]; then
  if ! git diff --quiet -- '*.py'; then :; fi
  if git diff --name-only | grep -qv '\.py$'; then bash /opt/vp/build.sh > "$w/build.log" 2>&1 || { echo "$id BUILD FAILED"; tail -5 "$w/build.log"; exit 2; }; fi
  timeout 300 bash "$w/demo/demo.sh" > "$w/demo1.log" 2>&1; echo "$id demo with the patch: rc=$? $(tail -1 "$w/demo1.log" | cut -c1-200)"
  bash /opt/vp/test.sh "$w/out.json" > "$w/test.log" 2>&1
  python3 - "$w/out.json" "$id" <<'PY'
import json, sys
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base
out = set(json.load(open(sys.argv[1]))["passed"])
miss = [t for t in stable if t not in out]
print(sys.argv[2], "stable tests failing:", len(miss), miss[:4])
PY
fi
rm -rf "/tmp/w/s-$id/repo" "/tmp/w/s-$id/verif" 2>/dev/null
