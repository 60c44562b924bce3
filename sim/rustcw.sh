#!/bin/sh
# RUSTC_WRAPPER: turn every edge, load and store of the code under test and of the derived
# types into a scheduling point.  Dependencies, macros and the simulator stay as they are.
rustc="$1"; shift
name=; prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name="$a"; break; }
  prev="$a"
done
case "$name" in
  parse_display|parse_display_with|zoo|pdderive)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
