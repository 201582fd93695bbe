#!/bin/bash
# Adds SanitizerCoverage (edges, loads, stores) to the crates under test only.
rustc="$1"; shift
name=""; prev=""; target=0
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  [ "$prev" = --target ] && target=1
  prev="$a"
done
case "$target:$name" in
  1:rust_eth_kzg|1:crate_crypto_*|1:c_eth_kzg|1:java_eth_kzg|1:node_eth_kzg|1:rayon|1:rayon_core|1:crossbeam_*|1:threadpool|1:blst)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
