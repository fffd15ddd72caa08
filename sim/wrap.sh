#!/bin/bash
# RUSTC_WRAPPER: compile the code under test (colorz) and the thin driver that
# instantiates its generic code (drv) with ThreadSanitizer's instrumentation
# pass, but without its runtime: every atomic operation becomes a call into
# the simulator (simrt), which owns scheduling and the memory model.
p=
for a in "$@"; do
    if [ "$p" = --crate-name ]; then
        case "$a" in
            colorz | drv)
                exec "$@" -Zsanitizer=thread -Zexternal-clangrt \
                    '-Cllvm-args=-tsan-instrument-memory-accesses=0' \
                    '-Cllvm-args=-tsan-instrument-func-entry-exit=0' \
                    '-Cllvm-args=-tsan-instrument-memintrinsics=0'
                ;;
        esac
    fi
    p=$a
done
exec "$@"
