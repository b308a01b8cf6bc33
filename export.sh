#!/bin/bash
# Rebuild the analysed crates from /repo's current sources and dump their MIR.
# usage: export.sh  -> prints the directory holding the dumps
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTUP_TOOLCHAIN RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
B=$V/build; mkdir -p "$B"
exec 9>"$B/lock"; flock 9
TC=nightly
sha_tree() { (cd "$1" && find . -type f \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' -o -name '*.json' \) -not -path '*/target/*' -not -path './.git/*' -print0 | sort -z | xargs -0 sha256sum); }
TOOL=$({ sha_tree "$V/analyzer"; cargo +$TC --version; } | sha256sum | cut -c1-16)
if [ "$(cat "$B/tool.id" 2>/dev/null)" != "$TOOL" ] || [ ! -x "$B/driver/release/vsa-driver" ] || [ ! -x "$B/engine/release/vsa" ]; then
  (cd "$V/analyzer/driver" && CARGO_TARGET_DIR="$B/driver" cargo +$TC build --release --offline) >"$B/driver.log" 2>&1 || { tail -30 "$B/driver.log" >&2; exit 2; }
  (cd "$V/analyzer" && CARGO_TARGET_DIR="$B/engine" cargo +$TC build --release --offline) >"$B/engine.log" 2>&1 || { tail -30 "$B/engine.log" >&2; exit 2; }
  echo "$TOOL" >"$B/tool.id"
fi
SRC=$({ sha_tree /repo; sha_tree "$V/harness"; sha_tree "$V/analyzer/driver"; sha_tree "$V/analyzer/ir"; cat "$V/export.sh"; } | sha256sum | cut -c1-24)
OUT=$B/mir/$SRC
if [ ! -f "$OUT/done" ]; then
  # cargo decides freshness from mtimes; sources may come and go, so drop what was built from them
  for c in rac vru-noise vru-kyber vru-session vru-tcp vru-udp vru-processor roots wire vru-node; do
    rm -rf "${B:?}/harness/debug/build/${c:?}"
    find "$B/harness/debug/.fingerprint" -maxdepth 1 -name "$c-*" -exec rm -rf {} + 2>/dev/null
  done
  rm -rf "$B/mir"; mkdir -p "$OUT"
  export LD_LIBRARY_PATH="$(rustc +$TC --print sysroot)/lib"
  (cd "$V/harness" && VSA_OUT="$OUT" VSA_EXPORT="roots,wire,vru_node,client,vru_tcp,vru_udp" RUSTC_WRAPPER="$B/driver/release/vsa-driver" \
   CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$B/harness" RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Coverflow-checks=on -Cdebug-assertions=off --cap-lints=allow" \
   cargo +$TC check --offline --locked --workspace) >"$B/export.log" 2>&1 || { tail -40 "$B/export.log" >&2; exit 2; }
  touch "$OUT/done"
fi
echo "$OUT"
