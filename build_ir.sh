#!/bin/bash
# build_ir.sh OUTDIR PROFILE(release|checked|threads|lowmem): compiles the harness crate against /repo's working tree;
# leaves OUTDIR/$PROFILE.ll (whole-program LLVM IR) and OUTDIR/$PROFILE.exe (native replay binary).
set -e
out=$1; prof=$2
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
gcc -O1 -c "$here/harness/shim.c" -o "$out/shim.o"
cd "$here/harness"
[ $prof = lowmem ] && export RUSTFLAGS="--cfg verif_low_memory"
rm -f "$out"/tgt/$prof/deps/harness-*.bc
cargo rustc --offline --profile $prof $([ $prof = threads ] && echo --features threads) --target-dir "$out/tgt" --bin harness -- -C save-temps -C no-vectorize-loops -C no-vectorize-slp -C link-arg="$out/shim.o"
bin=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
bc=$(ls "$out"/tgt/$prof/deps/harness-*.rcgu.bc | head -1)
"$bin/opt" -passes=strip-dead-prototypes "$bc" -S -o "$out/$prof.ll" 2>/dev/null || "$bin/llvm-dis" "$bc" -o "$out/$prof.ll"
cp "$out/tgt/$prof/harness" "$out/$prof.exe"
rm -f "$out"/tgt/$prof/deps/harness-*.bc "$out"/tgt/$prof/deps/harness-*.rcgu.o
