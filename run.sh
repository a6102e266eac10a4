#!/bin/bash
# run.sh ID quick|thorough [--replay FILE | --suite NAME]: rebuilds the check of property ID against
# /repo's working tree and runs it. Exit 0: holds; 1: VIOLATION; 2: the check could not be run.
set -u
dir=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-quick}; shift; shift 2>/dev/null
case $id in
  M0[1-4]) crate=harness; bin=map ;;
  R0[1-4]) crate=harness; bin=ray ;;
  I0[1-9]) crate=harness; bin=integrate ;;
  K0[1-4]) crate=harness; bin=kitti ;;
  V0[12]) crate=vizharness; bin=viz ;;
  *) crate=harness; bin=geom ;;
esac
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS= VERIF_DIR=$dir VERIF_TIER=$tier
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
cd "$dir/$crate" || exit 2
exe=$dir/$crate/target/run/$id-$$
mkdir -p "$dir/$crate/target/run"
(
  flock 9
  # File times say nothing about what changed in /repo: build the crate under test anew.
  cargo clean --offline --release -p kuba >/dev/null 2>&1
  [ $crate = vizharness ] && cargo clean --offline --release -p viz-mc >/dev/null 2>&1
  if ! cargo build --offline --locked --release --bin $bin >"$exe.log" 2>&1; then
    tail -40 "$exe.log"
    exit 1
  fi
  cp "target/release/$bin" "$exe"
) 9>"$dir/$crate/target/run/lock" || { echo "BUILD FAILED: $id"; rm -f "$exe" "$exe.log"; exit 2; }
cd "$dir"
"$exe" "$id" "$@"
rc=$?
rm -f "$exe" "$exe.log"
exit $rc
