#!/bin/sh
# Compile the library and its dependencies with a call at every edge of the
# control flow. The simulator itself and what runs at build time have none.
name=; target=; proc=
prev=
for a in "$@"; do
  case "$prev" in
    --crate-name) name=$a ;;
    --crate-type) [ "$a" = proc-macro ] && proc=1 ;;
  esac
  case "$a" in
    --target|--target=*) target=1 ;;
  esac
  prev=$a
done
if [ -n "$target" ] && [ -z "$proc" ] && [ -n "$name" ] && [ "$name" != vcsim ] && [ "$name" != ___ ] && [ "$name" != build_script_build ]; then
  if [ "$name" = vcard4 ]; then
    # Also a call at every access to memory
    set -- "$@" -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
fi
exec "$@"
