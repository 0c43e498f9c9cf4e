#!/bin/bash
# Builds build/libsim.so and the instrumented cryptovampire binary from /repo's working
# tree into /verif/build (ignored by git).  Prints nothing on success.
# 'build.sh log': the same, with the log crate's compile-time level filter lifted, so that
# every log statement is live (build/target-log).
set -u
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
here=$(cd "$(dirname "$0")/.." && pwd)
out=$here/build; mkdir -p "$out"
exec 9>"$out/.lock"; flock 9
log=$out/build.log; : >"$log"
repo=${VERIF_REPO:-/repo}
die() { echo "build failed: $1" >&2; tail -40 "$log" >&2; exit 3; }
if [ ! -f "$out/libsim.so" ] || [ "$here/sim/libsim.c" -nt "$out/libsim.so" ] || ! sha256sum -c --status "$out/.libsim.sum" 2>/dev/null; then
  gcc -O2 -g -fPIC -shared -fvisibility=hidden -Wall -Wno-unused -Wno-nonnull-compare -Wno-misleading-indentation -Wno-nonnull -fno-builtin-malloc -fno-delete-null-pointer-checks "$here/sim/libsim.c" -o "$out/libsim.so.new" -ldl -lm >>"$log" 2>&1 || die libsim
  mv "$out/libsim.so.new" "$out/libsim.so"; sha256sum "$here/sim/libsim.c" >"$out/.libsim.sum"
fi
var=; cfg=()
if [ "${1:-}" = log ]; then var=-log; cfg=(--config profile.release.package.log.debug-assertions=true); fi
tgt=$out/target$var
export CARGO_TARGET_DIR=$tgt CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true RUSTC_WORKSPACE_WRAPPER=$here/tools/rustc-wrap.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC
# never trust modification times alone: when the sources changed, the workspace crates are rebuilt
sum=$( { cat "$here/tools/rustc-wrap.sh"; cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.pest' -o -name '*.md' -o -name '*.json' -o -name '*.ptcl' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum)
if [ ! -f "$out/.src$var.sum" ] || [ "$(cat "$out/.src$var.sum")" != "$sum" ] || [ ! -x "$tgt/release/cryptovampire" ]; then
  if [ ! -d "$tgt/release/deps" ] && [ -d "$repo/target/release/.fingerprint" ]; then
    # dependencies are compiled exactly as in the normal build: start from those
    mkdir -p "$tgt/release"
    cp -a "$repo/target/release/.fingerprint" "$repo/target/release/build" "$repo/target/release/deps" "$tgt/release/" >>"$log" 2>&1
  fi
  rm -f "$out/.src$var.sum"
  ws=$(cd "$repo" && ls crates)
  for c in $ws; do rm -rf "$tgt/release/.fingerprint/$c"-*; done
  (cd "$repo" && cargo build --release "${cfg[@]}" --locked --offline -p cryptovampire --bin cryptovampire) >>"$log" 2>&1 || die cargo
  echo "$sum" >"$out/.src$var.sum"
fi
exit 0
