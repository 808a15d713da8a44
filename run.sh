#!/bin/bash
# run.sh build | check ID [quick|thorough] | replay FILE | ...   Builds from /repo's working tree, then runs die-sim.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh >/dev/null || exit 2
cd "$VERIF" || exit 2
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export CARGO_TARGET_DIR="$VERIF/target" DSIM_VERIF="$VERIF" OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 RUST_BACKTRACE=0
build() {
  mkdir -p "$CARGO_TARGET_DIR/debug"
  exec 9>"$CARGO_TARGET_DIR/.build.lock"; flock 9
  # cargo trusts modification times; trust contents instead
  local h; h=$(cd /repo && find Cargo.toml Cargo.lock src build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
  if [ "$(cat "$CARGO_TARGET_DIR/.repo.hash" 2>/dev/null)" != "$h" ]; then
    rm -f "$CARGO_TARGET_DIR/.repo.hash"
    find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 \( -name 'die-e-*' -o -name 'die-sim-*' \) -exec rm -r {} + 2>/dev/null
  fi
  [ "$CARGO_TARGET_DIR/debug/libdiesim.so" -nt sim/preload/diesim.c ] || gcc -O2 -Wall -shared -fPIC -o "$CARGO_TARGET_DIR/debug/libdiesim.so" sim/preload/diesim.c -ldl -lpthread || return 1
  cargo build --offline --quiet --manifest-path sim/Cargo.toml 9>&- || return 1
  echo "$h" > "$CARGO_TARGET_DIR/.repo.hash"; exec 9>&-
}
build > "$CARGO_TARGET_DIR.log" 2>&1 || { mkdir -p "$CARGO_TARGET_DIR"; tail -40 "$CARGO_TARGET_DIR.log" >&2; echo "HARNESS ERROR: build failed" >&2; exit 2; }
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/die-sim" "$@"
