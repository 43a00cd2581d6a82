#!/bin/bash
# seed.sh ID: confirm a planted bug in a scratch copy: the patch applies, builds, the stable tests pass,
# the demo exits 0 without and nonzero with the patch. With CHECK=1 also runs the property's check on it (in /repo).
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed.XXXX)
cp -a /repo "$W/repo"
. /opt/vp/env.sh >/dev/null 2>&1
fail() { echo "SEED $id: $*"; rm -rf "$W"; exit 1; }
cd "$W/repo"; git checkout -q -- .
git diff --quiet || fail dirty
cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/d0.log" 2>&1) || { tail -20 "$W/d0.log"; fail "demo fails on the unchanged tree"; }
git apply "$S/patch.diff" || fail "patch does not apply"
go build ./... || fail build
go vet ./... >/dev/null 2>&1 || echo "  (vet complains)"
sed -e "s#/repo#$W/repo#g" -e "s#/opt/vp/work#$W/work#g" /opt/vp/test.sh > "$W/test.sh"
bash "$W/test.sh" "$W/out.json" >/dev/null 2>&1
python3 - "$W/out.json" <<'PY' || fail "stable tests"
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; o=json.load(open(sys.argv[1]))["passed"]
miss=[t for t in b if t not in o]
if miss: print("missing",miss[:5]); sys.exit(1)
PY
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/d1.log" 2>&1) && fail "demo passes with the patch"
echo "SEED $id: confirmed"
rm -rf "$W"
