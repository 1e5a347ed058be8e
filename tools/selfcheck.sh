#!/bin/bash
# selfcheck.sh [SEEDS] [RUNS]: proves determinism of every scenario: each VERIF_SEED twice, in
# separate processes, at two worker counts (one process alone, eight at once), and diffs the event
# log fingerprints of every run.
cd "$(dirname "$(dirname "$(realpath "$0")")")" || exit 2
seeds=${1:-6}; runs=${2:-200}
./run.sh build || exit 2
w=$(mktemp -d); bad=0
for crate in sim_iri sim_rdf; do
    [ -d $crate ] || continue
    for p in $("./$crate/target/sim/debug/$crate" list); do
        for s in $(seq 1 "$seeds"); do
            VERIF_DIR=$PWD VERIF_SEED=$s "./$crate/target/sim/debug/$crate" determinism "$p" "$runs" > "$w/a.$p.$s" &
            [ $((s % 8)) = 0 ] && wait
        done
        wait
        for s in $(seq 1 "$seeds"); do
            VERIF_DIR=$PWD VERIF_SEED=$s setarch -R "./$crate/target/sim/debug/$crate" determinism "$p" "$runs" > "$w/b.$p.$s" 2>/dev/null ||
            VERIF_DIR=$PWD VERIF_SEED=$s "./$crate/target/sim/debug/$crate" determinism "$p" "$runs" > "$w/b.$p.$s"
            cmp -s "$w/a.$p.$s" "$w/b.$p.$s" || { echo "$p seed $s differs"; diff "$w/a.$p.$s" "$w/b.$p.$s" | head -4; bad=1; }
        done
        echo "$p: $seeds seeds x $runs runs x 2: $(cat "$w"/a."$p".* | grep -c run=) runs compared"
    done
done
rm -rf "${w:?}"
exit $bad
