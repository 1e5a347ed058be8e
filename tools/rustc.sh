#!/bin/bash
# The compiler, as cargo calls it for the checks: the crates of the repository (and sim_calls, where
# their generic functions are compiled) get a call at every control-flow edge, load and store
# (simkit/src/preempt.rs), everything else is compiled as always.
rustc="$1"
shift
case " $* " in
*" --crate-name rdftk_"* | *" --crate-name sim_calls "*)
    s=-sanitizer-coverage
    # -Z: nothing of theirs is compiled into, and no std code of theirs is shared with, other crates
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zshare-generics=n -Zcross-crate-inline-threshold=never -Cpasses=sancov-module "-Cllvm-args=$s-level=3 $s-trace-pc-guard $s-trace-loads $s-trace-stores $s-pc-table"
    ;;
*) exec "$rustc" "$@" ;;
esac
