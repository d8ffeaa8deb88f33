#!/bin/bash
# run.sh <property> <quick|thorough>   build against /repo, then run the check
# run.sh replay <file>                 run one recorded case again
# run.sh case <property> <seed> <idx>  run one case
# run.sh build                         only build
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTC_WRAPPER="$PWD/harness/rustc-wrap.sh"

build() {
  # Never trust timestamps: the code under test is always compiled afresh.
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/cddl-cat-* "$CARGO_TARGET_DIR"/release/.fingerprint/harness-*
  if ! cargo build --release --offline -q --manifest-path harness/Cargo.toml >"$VERIF_ROOT/build.log" 2>&1; then
    cat "$VERIF_ROOT/build.log" >&2
    echo "build failed" >&2
    exit 2
  fi
}
# The library in other feature configurations, as users build it.
export VERIF_PROBES="$PWD/probe/target/bin"
build_probes() {
  local t="$PWD/probe/target" c f
  mkdir -p "$VERIF_PROBES"
  rm -rf "$t"/release/.fingerprint/cddl-cat-* "$t"/release/.fingerprint/probe-*
  for c in none: json:json cbor:cbor full:json,cbor; do
    f="${c#*:}"; c="${c%%:*}"
    rm -f "$VERIF_PROBES/probe-$c"
    if ! RUSTC_WRAPPER= CARGO_TARGET_DIR="$t" cargo build --release --offline -q --manifest-path probe/Cargo.toml --features "$f" >"$VERIF_ROOT/build.log" 2>&1; then
      cat "$VERIF_ROOT/build.log" >&2
      echo "build of configuration $c failed" >&2
      exit 2
    fi
    cp "$t/release/probe" "$VERIF_PROBES/probe-$c"
  done
}
needs_probes() {
  case "${1:-}" in C20|*C20-*) return 0 ;; esac
  return 1
}
bin="$CARGO_TARGET_DIR/release/harness"
ulimit -v 12000000
ulimit -c 0
case "${1:-}" in
  build) build; build_probes ;;
  replay|case) build; if needs_probes "$2"; then build_probes; fi; exec "$bin" "$@" ;;
  *) build; if needs_probes "$1"; then build_probes; fi; exec "$bin" check "$1" "${2:-quick}" ;;
esac
