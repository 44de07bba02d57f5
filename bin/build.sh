#!/bin/bash
# Builds the simulator around the crate as it stands in /repo's working tree.
# Prints the path of the simulator. Everything goes to /verif/.build (ignored by git).
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
R="${VERIF_REPO:-/repo}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_BOOTSTRAP
OUT="$V/.build"
mkdir -p "$OUT"
key=$( (cd "$R" && find src -type f -print0 | sort -z | xargs -0 sha256sum; cat Cargo.toml;
        cd "$V" && find sim bin/build.sh -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V) | sha256sum | cut -c1-24)
D="$OUT/sim.$key"
exec 9>"$OUT/lock"
flock 9
if [ ! -x "$D/sim" ]; then
    # keep only a few old builds
    ls -dt "$OUT"/sim.* 2>/dev/null | tail -n +4 | while read -r d; do rm -rf "$d"; done
    rm -rf "$OUT"/tmp.* # we hold the lock: left over
    T="$OUT/tmp.$$"
    rm -rf "$T"; mkdir -p "$T"
    edition=$(sed -n 's/^edition *= *"\([0-9]*\)".*/\1/p' "$R/Cargo.toml" | head -1)
    # The crate is a binary crate, so nothing can depend on it through cargo: its root is
    # compiled as a library instead, with the guard on and callbacks at every edge, load and store.
    VERIF_SIM_BRIDGE="$V/sim/bridge.rs" rustc --edition "${edition:-2021}" --crate-type rlib \
        --crate-name symbolic_rust "$R/src/main.rs" --cfg verif_sim -A warnings --cap-lints allow \
        -C opt-level=1 -C debug-assertions=on -C overflow-checks=on -C debuginfo=1 -C relocation-model=static \
        -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc -C llvm-args=-sanitizer-coverage-trace-loads \
        -C llvm-args=-sanitizer-coverage-trace-stores -C codegen-units=1 \
        --emit=link="$T/libsymbolic_rust.rlib",llvm-ir="$T/crate.ll" >&2
    # atomic read-modify-writes have no callback of their own: give them one
    llc="$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/llc"
    object=$(ar t "$T/libsymbolic_rust.rlib" | grep '\.o$')
    if [ "$(echo "$object" | wc -l)" = 1 ] && [ "$(python3 "$V/sim/rmw.py" "$T/crate.ll" "$T/crate2.ll")" != 0 ]; then
        "$llc" -O1 -filetype=obj -relocation-model=static --function-sections --data-sections \
            "$T/crate2.ll" -o "$T/$object" >&2
        ar r "$T/libsymbolic_rust.rlib" "$T/$object" >&2
    fi
    rm -f "$T/crate.ll" "$T/crate2.ll" "$T/$object"
    # the crate's own block copies go through the simulator too
    objcopy --redefine-sym memcpy=sim_memcpy --redefine-sym memmove=sim_memmove --redefine-sym memset=sim_memset \
        --redefine-sym memcmp=sim_memcmp --redefine-sym bcmp=sim_bcmp "$T/libsymbolic_rust.rlib" >&2
    # RUSTC_BOOTSTRAP: the simulator needs the allocation-error hook and #[thread_local].
    RUSTC_BOOTSTRAP=1 rustc --edition 2021 "$V/sim/src/main.rs" --crate-name sim -A warnings \
        -C opt-level=2 -C debuginfo=1 -C relocation-model=static -C panic=unwind \
        --extern symbolic_rust="$T/libsymbolic_rust.rlib" -o "$T/sim" >&2
    rm -rf "$D"; mv "$T" "$D"
fi
echo "$D/sim"
