#!/bin/bash
# plant.sh ID...: confirms planted bugs in a scratch copy of /repo (never in /repo itself): the patch
# applies, the build and the stable tests pass with it, demo.sh passes without and fails with it.
# With CHECK=1 also runs the property's check against the patched copy.
here=$(dirname "$(dirname "$(realpath "$0")")")
for id in "$@"; do
    d=$here/seeded/$id
    w=/tmp/plant.$$.$id
    mkdir -p "$w" && cp -a /repo "$w/repo" || exit 2
    cp -a "$d" "$w/demo" && rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
    res=""
    (cd "$w/repo" && git checkout -q -- . && bash "$w/demo/demo.sh" > "$w/clean.log" 2>&1) && res="$res clean-ok" || { res="$res CLEAN-FAILS"; tail -5 "$w/clean.log"; }
    (cd "$w/repo" && git apply "$d/patch.diff") && res="$res applies" || res="$res NOAPPLY"
    (. /opt/vp/env.sh; cd "$w/repo"; cargo test -p rdftk_iri --no-fail-fast --offline -- --test-threads 8) > "$w/t.log" 2>&1
    python3 /opt/vp/results.py "$w/o.json" "cargo:$w/t.log" > /dev/null 2>&1
    python3 - "$w/o.json" <<'P' && res="$res tests-ok" || res="$res TESTS-FAIL"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
want=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
assert want, b.keys()
miss=want-set(o['passed'])
if miss: print(miss)
sys.exit(bool(miss))
P
    (cd "$w/repo" && bash "$w/demo/demo.sh" > "$w/bug.log" 2>&1) ; rc=$?; case $rc in 0) res="$res DEMO-PASSES-WITH-BUG";; 3) res="$res DOES-NOT-BUILD";; *) res="$res demo-fails($rc)";; esac
    echo "$id:$res"
    [ -n "$SHOW" ] && tail -4 "$w/bug.log"
    rm -rf "/tmp/plant.$$.$id"
done
