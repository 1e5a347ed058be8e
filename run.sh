#!/bin/bash
# run.sh PROPERTY: builds the simulator that decides PROPERTY from /repo's working tree and runs
# its check (VERIF_SEED, VERIF_TIER; exit 0 / 1 + VIOLATION line / 2 = error of the check).
# run.sh replay FILE: repeats the run recorded in a replay file.   run.sh build: builds only.
cd "$(dirname "$(realpath "$0")")" || exit 2
export VERIF_DIR="$PWD" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=$PWD/tools/rustc.sh RUSTFLAGS=
export CARGO_TARGET_DIR=target/sim
unset CARGO_BUILD_TARGET
build() {
    (cd "$1" && cargo build --offline --quiet 2> target-build.log) || {
        tail -40 "$1/target-build.log" >&2
        echo "run.sh: $1 does not build against /repo" >&2
        exit 2
    }
}
# The command line program of /repo and the seam its system calls go through.
program() {
    RUSTC_WRAPPER= build cli
    gcc -O1 -shared -fPIC -o cli/target/seam.so cli/seam.c || exit 2
    SIM_SCRATCH=$(mktemp -d /dev/shm/rdftk-sim.XXXXXX || mktemp -d) || exit 2
    export SIM_SCRATCH
    trap 'rm -rf "$SIM_SCRATCH"' EXIT
}
case "$1" in
build)
    build sim_iri
    build sim_rdf
    program
    exit 0
    ;;
replay)
    crate=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["crate"])' "$2") || exit 2
    build "$crate"
    program
    "./$crate/target/sim/debug/$crate" replay "$2"
    exit
    ;;
C01 | C02 | C03 | C04 | C05) crate=sim_iri ;;
C*) crate=sim_rdf ;;
*)
    echo "usage: run.sh PROPERTY | replay FILE | build" >&2
    exit 2
    ;;
esac
build "$crate"
[ "$1" = C24 ] && program
"./$crate/target/sim/debug/$crate" check "$1"
