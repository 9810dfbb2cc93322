#!/bin/bash
# check.sh <property> <quick|thorough>   or   check.sh replay <file>
# Builds the checker against /repo's working tree and runs one property's check.
set -uo pipefail
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
cd "$here/harness" || exit 2
build() { # $1 = binary name, $2 = extra cargo arguments
  local tgt=$here/harness/target
  local h
  h=$(cd /repo && find programs Cargo.toml Cargo.lock -type f -not -path '*/target/*' 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum | cut -d' ' -f1)
  mkdir -p "$tgt"
  # file times say little about a copied tree: rebuild the program whenever its content differs
  if [ -d "$tgt/release" ] && [ "$(cat "$tgt/src.hash" 2>/dev/null)" != "$h" ]; then
    cargo clean --release --offline -p cyclos-core -q 2>/dev/null || true
  fi
  echo "$h" > "$tgt/src.hash"
  cargo build --release --offline --locked -q $2 --bin "$1" > "$tgt/build.log" 2>&1 || { grep -E '^error' -A8 "$tgt/build.log" | head -60 >&2; exit 3; }
}
prop=${1:?usage}
case "$prop" in
  replay) p=$(sed -n 's/^ *"property": *"\([^"]*\)".*/\1/p' "${2:?file}" | head -1) ;;
  *) p=$prop ;;
esac
case "$p" in
  C15|C20|C21|C22|C23|C24) bin=mclib; args="--features lib" ;;
  *) bin=mc; args="" ;;
esac
if [ "$prop" = build ]; then
  build mc ""; build mclib "--features lib"; exit 0
fi
build $bin "$args"
if [ "$prop" = replay ]; then
  exec "$here/harness/target/release/$bin" replay "$(realpath "$2")"
fi
exec "$here/harness/target/release/$bin" check "$p" "${2:-quick}"
