#!/bin/bash
# runseeds.sh [id ...]: applies each planted bug to /repo, runs the check of its property, undoes it.
cd "$(dirname "$0")/.." || exit 2
export GOVER_ROOT=$(pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
for i in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
    git -C /repo apply "$GOVER_ROOT/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
    s=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh "$p" > /tmp/seed-$i.log 2>&1
    rc=$?
    git -C /repo checkout -- .
    echo "$i $p exit=$rc $(( $(date +%s) - s ))s $(grep -c '^  failed:' /tmp/seed-$i.log) failed obligations; $(grep '^VIOLATION' /tmp/seed-$i.log)"
done
