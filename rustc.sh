#!/bin/bash
# Compiler wrapper: the library under test reports edges and comparisons to vm/cover.c.
for a in "$@"; do
  if [ "${p:-}" = --crate-name ] && [ "$a" = lunify ]; then
    exec "$@" -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares
  fi
  p=$a
done
exec "$@"
