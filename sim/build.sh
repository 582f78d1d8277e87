#!/bin/bash
# Builds the simulator against /repo's current working tree.  Cargo compares modification times, which
# say little about a tree that was copied or reset, so the content decides.
set -e
cd "$(dirname "$0")"
mkdir -p target
exec 9>target/.build.lock
flock 9
want=$( (cat /repo/Cargo.toml; cd /repo && find src -type f -print0 | sort -z | xargs -0 sha256sum; cat /verif/sim/rustc-wrap.sh; pwd) | sha256sum)
if [ "$(cat target/subject.sum 2>/dev/null)" != "$want" ]; then
  rm -f /verif/sim/target/subject.sum
  for profile in release shipped; do
    cargo clean --profile $profile --offline -q -p diffy -p subject 2>/dev/null || true
  done
fi
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
wrap=
for f in memcpy memmove memset memcmp bcmp; do wrap="$wrap -Clink-arg=-Wl,--wrap=$f"; done
export RUSTFLAGS="${RUSTFLAGS_EXTRA:-} -Awarnings$wrap"
cargo build --profile shipped --offline -q 2>target/build-shipped.log &
if ! cargo build --release --offline -q 2>target/build.log; then
  wait
  cat target/build.log >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
if ! wait $!; then
  cat target/build-shipped.log >&2
  echo "the simulator does not build against /repo without debug assertions" >&2
  exit 2
fi
echo "$want" > target/subject.sum
