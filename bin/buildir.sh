#!/bin/bash
# buildir.sh <harness> <out.ll> <native out>
# Whole-program LLVM IR of /repo's current working tree linked with one harness.
# rustc is left running in the background once the linked IR exists: it goes on
# to produce the native executable that counterexamples are replayed against.
set -e
V=${VERIF_DIR:-/verif}; R=${REPO_DIR:-/repo}; B=${VERIF_BUILD:-$V/.build}
H=$V/harness/$1.rs; OUT=$2; EXE=$3
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$B/t
export CARGO_PROFILE_RELEASE_LTO=fat CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_INCREMENTAL=0
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER
export DUNE_VERIF_BIN=$H
mkdir -p $B/n $B/t
gcc -O1 -c $V/harness/sv_native.c -o $B/n/sv_native.o
rm -f $B/n/libsvnative.a; ar rcs $B/n/libsvnative.a $B/n/sv_native.o
export RUSTFLAGS="--cfg dune_verif -Cpanic=abort -Coverflow-checks=on -Cdebug-assertions=on -Cno-vectorize-loops -Cno-vectorize-slp -Copt-level=2 -Lnative=$B/n"
L=$(rustc --print target-libdir)/../bin
D=$B/t/release/deps
rm -f $D/dunesh-* $EXE $EXE.done
touch $V/harness/$1.rs
cd $R
( set +e; cargo rustc --offline --bin dunesh --release -- -Csave-temps > $EXE.log 2>&1; rc=$?
  [ $rc = 0 ] && cp $B/t/release/dunesh $EXE; echo $rc > $EXE.done; rm -f $D/dunesh-*.bc $D/dunesh-*.o ) < /dev/null > /dev/null 2>&1 &
while :; do
  M=$(ls $D/dunesh-*.lto.after-restriction.bc 2>/dev/null | head -1)
  [ -n "$M" ] && break
  if [ -f $EXE.done ] && [ "$(cat $EXE.done)" != 0 ]; then cat $EXE.log >&2; exit 1; fi
  sleep 0.2
done
BC=$(ls $D/dunesh-*.lto.input.bc | head -1)
EN=$(grep -oh 'fn hx_[a-z0-9_]*' $H $V/harness/*.inc.rs 2>/dev/null | sed 's/fn //' | sort -u | paste -sd,)
ST=$( (grep -oh 'fn sv_stub_[A-Za-z0-9_]*' $H $V/harness/sv.rs $V/harness/*.inc.rs 2>/dev/null || true) | sed 's/fn //' | sort -u | paste -sd,)
$L/opt -passes='strip-dead-prototypes,internalize,globaldce,strip-dead-prototypes' -strip-debug -internalize-public-api-list=$EN,$ST $BC -o $OUT.bc
$L/llvm-dis $OUT.bc -o $OUT
rm -f $OUT.bc
