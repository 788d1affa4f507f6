#!/bin/sh
# Compile with coverage of edges and comparisons what is to be searched.
for argument; do
    case "$previous $argument" in
    "--crate-name postscript" | "--crate-name pvcheck")
        set -- "$@" -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
            -Cllvm-args=-sanitizer-coverage-pc-table \
            -Cllvm-args=-sanitizer-coverage-trace-compares
        ;;
    esac
    previous=$argument
done
exec "$@"
