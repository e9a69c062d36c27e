#!/bin/bash
# Called by cargo in place of rustc: has the library call the simulator at
# each of its basic blocks.
for a; do
    if [ "$p" = --crate-name ] && [ "$a" = ftml ]; then
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 \
            -Cllvm-args=-sanitizer-coverage-trace-pc
    fi
    p=$a
done
exec "$@"
