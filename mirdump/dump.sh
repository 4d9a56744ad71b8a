#!/bin/bash
# dump.sh OUTDIR: compiles /repo/src with mirdump in both build profiles; writes OUTDIR/{dev,rel}.json
# Needs nothing but the committed files of /verif, the nightly toolchain and cargo's offline registry.
set -e
here=$(cd "$(dirname "$0")" && pwd); root=$(cd "$here/.." && pwd); out=${1:-$root/build/dump}
b=$root/build; mkdir -p "$b" "$out" "$b/an"
nt=+nightly
sys=$(rustc $nt --print sysroot)
export LD_LIBRARY_PATH=$sys/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
if [ ! -x "$b/mirdump" ] || [ "$here/main.rs" -nt "$b/mirdump" ]; then
  rustc $nt --edition 2021 -O "$here/main.rs" -o "$b/mirdump.tmp" -A warnings && mv "$b/mirdump.tmp" "$b/mirdump"
fi
cp "$here/Cargo.toml.in" "$b/an/Cargo.toml"; cp "$here/Cargo.lock.in" "$b/an/Cargo.lock"
export MIRDUMP_BIN=$b/mirdump RUSTC_WORKSPACE_WRAPPER=$here/wrap.sh CARGO_TARGET_DIR=$b/target CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings --cap-lints=allow"
cd "$b/an"
for p in dev rel; do
  if [ $p = dev ]; then oc=on; else oc=off; fi
  rm -f "$out/$p.json"
  MIRDUMP_OUT=$out/$p.json cargo $nt rustc --offline --lib --profile check -q -- -Zmir-opt-level=0 -Coverflow-checks=$oc -Cdebug-assertions=off --cfg verif_dump_$RANDOM$RANDOM >"$out/$p.log" 2>&1 || { cat "$out/$p.log" >&2; exit 3; }
  [ -s "$out/$p.json" ] || { echo "mirdump produced nothing for $p" >&2; exit 3; }
done
