#!/bin/bash
# foreign.sh OUT: compile this program for nodes of other architectures: WebAssembly, run by node.js,
# and big-endian processors, interpreted by Miri. Leaves in OUT one launcher script per target that
# could be built. Never fails: a target that cannot be built is a node that does not take part, and
# the evidence says so.
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
work=$out/build
tc=${CBORSIM_FAR_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}
unset RUSTUP_TOOLCHAIN RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET MIRI_SYSROOT
export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
std=$(rustc "+$tc" --print sysroot)/lib/rustlib/src/rust/library || exit 0
python3 "$here/vendor.py" "$here/Cargo.lock" "$work/vendor" "$std/vendor" || exit 0
src=(--config 'source.crates-io.replace-with="vendor"' --config "source.vendor.directory=\"$work/vendor\"")
miri="-Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check -Zmiri-ignore-leaks -Zmiri-seed=1 -Zmiri-disable-isolation"

wasm() {
    t=$1
    rm -f "$out/$t"
    node=$(command -v node) || return
    flags="--cfg far -C panic=unwind"
    for a in --export=far_room --export=far_answer --export=far_at -zstack-size=16777216 --max-memory=268435456; do
        flags="$flags -C link-arg=$a"
    done
    (cd "$here" && RUSTFLAGS=$flags CARGO_TARGET_DIR=$work/$t \
        cargo "+$tc" build --release --offline --locked "${src[@]}" -Zbuild-std=std,panic_unwind --target "$t") || return
    cat >"$out/.$t" <<EOF
exec '$node' '$here/node.js' '$work/$t/$t/release/cborsim.wasm'
EOF
    mv "$out/.$t" "$out/$t"
}

interpreted() {
    t=$1
    sys=$work/sysroot-$t
    rm -f "$out/$t"
    if [ ! -e "$sys/ready" ]; then
        MIRI_SYSROOT=$sys CARGO_TARGET_DIR=$work/setup-$t cargo "+$tc" miri setup --target "$t" || return
        touch "$sys/ready"
    fi
    # The program ends at once when there are no requests.
    (cd "$here" && MIRI_SYSROOT=$sys MIRIFLAGS=$miri RUSTFLAGS="--cfg far" CARGO_TARGET_DIR=$work/$t \
        cargo "+$tc" miri run -q --offline --locked "${src[@]}" --target "$t" </dev/null) || return
    bin=$(find "$work/$t/miri/$t" -maxdepth 2 -name cborsim -type f | head -1)
    [ -n "$bin" ] || return
    exe=$(rustup which --toolchain "$tc" cargo-miri) || return
    cat >"$out/.$t" <<EOF
export MIRI_SYSROOT='$sys' MIRIFLAGS='$miri' RUSTUP_TOOLCHAIN='$tc'
cd '$here' && exec '$exe' runner '$bin'
EOF
    mv "$out/.$t" "$out/$t"
}

wasm wasm32-unknown-unknown >"$out/wasm32-unknown-unknown.log" 2>&1 &
for t in s390x-unknown-linux-gnu powerpc-unknown-linux-gnu; do
    interpreted "$t" >"$out/$t.log" 2>&1 &
done
wait
exit 0
