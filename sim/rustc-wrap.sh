#!/bin/sh
# RUSTC_WRAPPER: adds compiler probes (see probe/src/lib.rs) to the library and the simulator.
# NTLMSIM_MEM=1 also traces memory accesses.
rustc=$1
shift
prev=
for a in "$@"; do
    case "$prev=$a" in
    --crate-name=http_ntlm | --crate-name=ntlmsim)
        set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
        if [ "$NTLMSIM_MEM" = 1 ]; then
            set -- "$@" -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
        fi
        break
        ;;
    esac
    prev=$a
done
exec "$rustc" "$@"
