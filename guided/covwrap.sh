#!/bin/sh
# RUSTC_WRAPPER: edge counters in the crate under test and in the harness (which instantiates its
# generic code), not in the libraries.
case " $* " in
*" --crate-name liner "*|*" --crate-name guided "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
esac
exec "$@"
