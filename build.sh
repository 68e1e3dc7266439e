#!/bin/bash
# build.sh dev|release OUTFILE: build the simulator around /repo's current tree.
# Always recompiles the library: never trusts modification times.
set -e
profile=$1 out=$2
cd "$(dirname "$0")/sim"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_RUSTC_WRAPPER
mkdir -p target
exec 9>target/.lock
flock 9
flag=
dir=debug
if [ "$profile" = release ]; then flag=--release dir=release; fi
cargo clean --offline $flag -p h3-rs >target/build-$profile.log 2>&1 || true
all="turns geo vectors faces bits"
try() { cargo build --offline --locked $flag "$@" >>target/build-$profile.log 2>&1; }
without() { # group...: build with the stand-ins for these groups of undocumented helpers
  local keep= g
  for g in $all; do case " $* " in *" $g "*) ;; *) keep+=" $g" ;; esac; done
  try --no-default-features --features "$keep"
}
fallback() {
  # only the simulator may fail to build because a helper changed shape, never the library
  cargo build --offline --locked $flag -p h3-rs >/dev/null 2>&1 || return 1
  # as few groups as possible
  local m
  for m in 1 2 4 8 16 3 5 6 9 10 12 17 18 20 24 7 11 13 14 19 21 22 25 26 28 15 23 27 29 30 31; do
    local i=1 g out=
    for g in $all; do
      ((m & i)) && out+=" $g"
      i=$((i * 2))
    done
    without $out && return 0
  done
  return 1
}
if ! try && ! fallback; then
  grep -A12 '^error' target/build-$profile.log >&2 || tail -20 target/build-$profile.log >&2
  echo "build failed" >&2
  exit 2
fi
cp target/$dir/h3sim "$out"
