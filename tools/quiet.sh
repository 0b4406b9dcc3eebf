#!/bin/bash
# quiet.sh [check ids] : applies each behaviour-preserving change of tools/quiet to a copy of /repo
# and runs the checks against it (all must stay quiet). Run by hand; no check needs it.
cd "$(dirname "$0")/.." || exit 2
ids=${@:-$(python3 -c "import json;print(*[c['property_id'] for c in json.load(open('MANIFEST.json'))['checks']])")}
scratch=$(mktemp -d /tmp/quietXXXXXX)
bad=0
for p in tools/quiet/*.diff; do
    git clone -q "${VERIF_REPO:-/repo}" "$scratch/r" && git -C "$scratch/r" apply "$PWD/$p" || { echo "$p does not apply"; bad=1; }
    for i in $ids; do
        VERIF_REPO=$scratch/r VERIF_SECONDS=${VERIF_SECONDS:-20} VERIF_EVIDENCE=$scratch/e VERIF_REPLAY_DIR=$scratch ./check "$i" > "$scratch/log" 2>&1
        rc=$?
        echo "$(basename "$p") $i rc=$rc"
        [ $rc = 0 ] || { bad=1; tail -5 "$scratch/log"; }
    done
    rm -rf "$scratch/r"
done
rm -rf "$scratch"
exit $bad
