#!/bin/sh
# Compiler wrapper: has the compiler insert a call at every branch and comparison of the crate
# under test (its four builds), routes comparisons of memory through the simulator, and leaves
# every other crate alone. See sim/src/cov.rs.
case " $* " in
*" --crate-name mqtt_bytes_v5 "* | *" --crate-name mqtt_boxed "* | *" --crate-name mqtt_cow "* | *" --crate-name mqtt_binary "*)
    exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-pc-table \
        -C llvm-args=-sanitizer-coverage-trace-compares
    ;;
*" --crate-name sim "*)
    exec "$@" --cfg wrapped -C link-arg=-Wl,--wrap=memcmp,--wrap=bcmp
    ;;
esac
exec "$@"
