#!/bin/sh
# Adds SanitizerCoverage edge callbacks to the code under test (and to the
# parser library it drives), and leaves every other crate alone.
rustc="$1"; shift
case " $* " in
  *" --crate-name cddl_cat "*|*" --crate-name nom "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
