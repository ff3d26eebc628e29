#!/bin/bash
# Compiler wrapper: the library and the harness get coverage callbacks, nothing else does.
# Checks on pointers and vectorised loops are left out there, their coverage depends on addresses.
rustc="$1"; shift
case " $* " in
  *" --crate-name renplex "*|*" --crate-name harness "*)
    exec "$rustc" "$@" -C debug-assertions=off -C overflow-checks=on -C no-vectorize-loops -C no-vectorize-slp -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares ;;
  *) exec "$rustc" "$@" ;;
esac
