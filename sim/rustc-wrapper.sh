#!/bin/sh
# Instruments the code under test (and the harness code that monomorphises it) with basic-block callbacks.
rustc="$1"; shift
case " $* " in
*" --crate-name hacspec "*|*" --crate-name hacspec_examples "*|*" --crate-name secret_integers "*|*" --crate-name abstract_integers "*|*" --crate-name hacspec_dev "*|*" --crate-name props "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
*) exec "$rustc" "$@" ;;
esac
