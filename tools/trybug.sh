#!/bin/bash
# trybug.sh ID [PROPERTY...]: run the checks of the bug's property (or of those named) against it,
# in a scratch copy of /repo and with a copy of the current machinery
id=$1; shift
P=$*; [ -n "$P" ] || P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
D=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a /repo $D/repo && mkdir $D/verif && (cd /verif && cp -a bin harness spec tools known_findings.txt $D/verif/)
git -C $D/repo checkout -q -- . && git -C $D/repo apply /verif/seeded/$id/patch.diff || { rm -rf "$D"; exit 1; }
for p in $P; do
  (cd $D/verif && VERIF_REPO=$D/repo VERIF_SEED=${VERIF_SEED:-1} bin/check $p) > /tmp/try.$id.$p.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 '^reason' /tmp/try.$id.$p.log | cut -c1-150)"
done
rm -rf "$D"
