#!/bin/bash
# usage: try_bug.sh <seeded id> [check ...]: confirms a planted bug in a scratch copy and runs checks against it.
set -u
id=$1; shift
src=/verif/seeded/$id
w=$(mktemp -d /tmp/trybug-XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cd "$w/repo" || exit 2
. /opt/vp/env.sh
mkdir "$w/demo"; cp -r "$src"/. "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
if [ -z "${SKIPDEMO:-}" ]; then
timeout 300 bash "$w/demo/demo.sh" >"$w/out0" 2>&1; r0=$?
fi
git apply "$src/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
if [ -z "${SKIPDEMO:-}" ]; then
cargo test --workspace --no-fail-fast --offline >"$w/test.log" 2>&1
python3 /opt/vp/results.py "$w/res.json" "cargo:$w/test.log" >/dev/null 2>&1
python3 - "$w/res.json" "$w/test.log" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
try: res=json.load(open(sys.argv[1]))
except Exception as e: print("TESTS: no result", e); print(open(sys.argv[2]).read()[-1500:]); sys.exit()
def names(x):
    if isinstance(x,dict):
        for k in ("passed","stable","tests","pass"):
            if k in x: return set(x[k] if not isinstance(x[k],dict) else [t for t,v in x[k].items() if v in (True,"pass","passed","ok")])
    return set(x)
b,r=names(base),names(res)
print("TESTS: %d baseline, missing: %s"%(len(b),sorted(b-r)[:6]))
P
timeout 300 bash "$w/demo/demo.sh" >"$w/out1" 2>&1; r1=$?
echo "$id: demo unpatched=$r0 patched=$r1"
[ $r0 -ne 0 ] && tail -15 "$w/out0"
[ $r1 -eq 0 ] && tail -5 "$w/out1"
fi
for c in "$@"; do
  SMDIFF_REPO="$w/repo" timeout 900 python3 /verif/check.py $c | grep -v "^  undecided" | cut -c1-${WIDTH:-260}
done
exit 0
