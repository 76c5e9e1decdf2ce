#!/bin/sh
# cargo calls: rustc-wrapper.sh <rustc> <args...>. Only the crate under test is instrumented.
rustc="$1"; shift
case " $* " in
  *" --crate-name nmea_parser "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
