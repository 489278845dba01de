#!/bin/bash
# RUSTC_WRAPPER: instruments only the crate under test. VP_SANCOV selects how.
rustc="$1"; shift
prev=; crate=
for a in "$@"; do
    if [ "$prev" = --crate-name ]; then crate=$a; fi
    prev=$a
done
if [ "$crate" = json ]; then
    case "$VP_SANCOV" in
    guided) set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-trace-compares \
        -Cllvm-args=-sanitizer-coverage-pc-table -Ccodegen-units=1 ;;
    edges) set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
    esac
fi
exec "$rustc" "$@"
