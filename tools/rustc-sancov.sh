#!/bin/bash
# Cargo's RUSTC_WRAPPER: instruments the crate under test for coverage.
rustc="$1"; shift
prev=
for a in "$@"; do
	if [ "$prev" = --crate-name ] && [ "$a" = whitespace ]; then
		exec "$rustc" "$@" -Cpasses=sancov-module \
			-Cllvm-args=-sanitizer-coverage-level=3 \
			-Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
			-Cllvm-args=-sanitizer-coverage-trace-compares
	fi
	prev="$a"
done
exec "$rustc" "$@"
