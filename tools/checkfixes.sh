#!/bin/bash
# every "fixed" entry: reverting its commit must bring the violation back (development aid)
V=$(cd "$(dirname "$0")/.." && pwd)
/opt/venv/bin/python - "$V" <<'P' | while read prop commit; do
import json, sys
for l in open(sys.argv[1] + "/known_findings.jsonl"):
    e = json.loads(l)
    if e["status"] == "fixed":
        print(e["property"], e["commit"])
P
    t=$(mktemp -d /tmp/cf_XXXXXX)
    cp -a /repo $t/repo
    if ! git -C $t/repo -c user.name=x -c user.email=x@x revert --no-edit $commit >/dev/null 2>&1; then
        git -C $t/repo revert --abort; git -C $t/repo checkout -q -f $commit^
        how="(tree before the commit)"
    else how=""; fi
    VERIF_REPO=$t/repo VERIF_EVIDENCE=$t/ev $V/check $prop > $t/out 2>&1 < /dev/null; rc=$?
    echo "$prop $commit rc=$rc $(grep -c VIOLATION $t/out) $how $(grep ': clause' $t/out | head -1)"
    rm -rf $t
done
