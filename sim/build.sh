#!/bin/bash
# build.sh [mt|st|blk|blkst]: builds the simulator against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
B="${VERIF_BUILD:-/verif/.build}"
c="cargo build --release --offline --target x86_64-unknown-linux-gnu"
case "$1" in
  st) CARGO_TARGET_DIR="$B/st" exec $c --bin dassim --no-default-features ;;
  blk) CARGO_TARGET_DIR="$B/mt" exec $c --bin dasblocks --features blocks ;;
  blkst) CARGO_TARGET_DIR="$B/st" exec $c --bin dasblocks --no-default-features --features blocks ;;
  *) CARGO_TARGET_DIR="$B/mt" exec $c --bin dassim ;;
esac
