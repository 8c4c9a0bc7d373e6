#!/bin/bash
# usage: mkir.sh OUT.ll FEATURES CFGS...   builds the harness against /repo's working tree and leaves one IR module
set -e
out=$(realpath -m "$1"); feat=$2; shift 2
cd "$(dirname "$0")/harness"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
tag=w64; fl=""
for c in "$@"; do fl="$fl --cfg $c"; [ $c = astro_verif_w8 ] && tag=w8; done
tgt=${VERIF_BUILD:-/verif/build}/ir_$tag
log=$out.log
rm -f "$tgt"/debug/deps/vh.*.bc "$tgt"/debug/deps/libvh.so
RUSTFLAGS="$fl -A warnings -A overflowing_literals" CARGO_TARGET_DIR=$tgt cargo rustc --offline --lib --no-default-features --features "$feat" -- -C save-temps -C lto=fat >"$log" 2>&1 || { tail -30 "$log"; exit 3; }
bc=$(ls "$tgt"/debug/deps/*.rcgu.bc | grep 'deps/vh\.' | grep -v -e 'no-opt' -e 'lto.input' -e 'after-restriction' -e 'thin-lto')
[ $(echo "$bc" | wc -l) = 1 ] || { echo "unexpected bitcode files: $bc"; exit 3; }
bin=~/.rustup/toolchains/$RUSTUP_TOOLCHAIN/lib/rustlib/x86_64-unknown-linux-gnu/bin
entries=$(grep -rhoE '^ *h_[a-z0-9_]+ =>' src | awk '{print $1}' | sort -u | paste -sd,)
$bin/opt -passes='internalize,globaldce' -internalize-public-api-list=$entries "$bc" -S --strip-debug -o "$out"
