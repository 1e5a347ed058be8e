#!/bin/bash
# catch.sh ID...: applies each planted bug to /repo, runs its property's check, undoes it.
here=$(dirname "$(dirname "$(realpath "$0")")")
for id in "$@"; do
    d=$here/seeded/$id
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
    git -C /repo apply "$d/patch.diff" || { echo "$id: NOAPPLY"; continue; }
    t=$(date +%s)
    out=$("$here/run.sh" ${PROP:-$p} 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$id ${PROP:-$p} rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -E '^(violated|VIOLATION|harness|nondet)' | cut -c1-220 | tr '\n' ' ')"
done
