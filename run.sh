#!/bin/bash
# run.sh build | check <PROPERTY> [quick|thorough] | replay <FILE> | list
# Rebuilds the explorer against /repo's current working tree, then runs it.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" LANG=C.UTF-8
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/target" ZKMC_HOME="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET RUST_BACKTRACE
mkdir -p "$CARGO_TARGET_DIR" || exit 2

build() {
  (
    flock 9 || exit 2
    # Content hash of the code under test: cargo trusts mtimes, we do not.
    new=$(cd /repo && find kzg fri plonk nova -path '*/target' -prune -o \( -name '*.rs' -o -name Cargo.toml \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$CARGO_TARGET_DIR/.repo-hash" 2>/dev/null)
    if [ "$new" != "$old" ]; then
      rm -f "$CARGO_TARGET_DIR/.repo-hash"
      cargo clean --offline --release --manifest-path "$here/mc/Cargo.toml" -p kzg -p fri -p plonk -p nova -p zkmc >/dev/null 2>&1
    fi
    log="$CARGO_TARGET_DIR/build.log"
    if ! cargo build --release --offline --locked --manifest-path "$here/mc/Cargo.toml" >"$log" 2>&1; then
      grep -E '^error' -A12 "$log" | head -60
      echo "ENGINE ERROR the explorer does not build against /repo"
      exit 2
    fi
    echo "$new" > "$CARGO_TARGET_DIR/.repo-hash"
  ) 9>"$CARGO_TARGET_DIR/.lock"
}

case "$1" in
  build) build || exit 2; echo built ;;
  check) build || exit 2; exec "$CARGO_TARGET_DIR/release/zkmc" check "$2" "${3:-${VERIF_TIER:-quick}}" ;;
  replay) build || exit 2; exec "$CARGO_TARGET_DIR/release/zkmc" replay "$2" ;;
  list) build || exit 2; exec "$CARGO_TARGET_DIR/release/zkmc" list ;;
  *) echo "usage: run.sh build | check <PROPERTY> [quick|thorough] | replay <FILE> | list"; exit 2 ;;
esac
