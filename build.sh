#!/bin/bash
# Builds the simulator (release, overflow checks on) against /repo's working tree, offline: once with the library's default
# features and once for each of two small-buffer feature sets (target/release/dst, dst-sso10, dst-sso20); those two are a share of a check's runs.
# The library is rebuilt whenever the content of its sources differs from the last build, whatever the file times say.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/dst" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p target
exec 9>target/.verif-lock
flock 9
sum=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; cd "$here/dst" && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)
if [ "$sum" = "$(cat target/.verif-sum 2>/dev/null)" ] && [ -x target/release/dst ]; then
  exit 0
fi
rm -f target/.verif-sum target/release/dst-sso10 target/release/dst-sso20
one() { # NAME FLAGS...
  local t=target/$1; shift
  CARGO_TARGET_DIR="$here/dst/$t" cargo clean --release --offline -p mqtt-protocol-core -p dst >/dev/null 2>&1
  CARGO_TARGET_DIR="$here/dst/$t" cargo build --release --offline --quiet "$@" 2>"$t/.verif-log"
}
mkdir -p target/sso10 target/sso20
one sso10 --features sso10 & p1=$!
one sso20 --features sso20 & p2=$!
one . || { cat target/.verif-log >&2; wait; exit 2; }
for b in sso10:$p1 sso20:$p2; do
  if wait ${b#*:}; then
    cp target/${b%:*}/release/dst target/release/dst-${b%:*}
  else
    echo "note: no ${b%:*} build: $(grep -m1 ^error target/${b%:*}/.verif-log)" >&2
  fi
done
echo "$sum" >target/.verif-sum
