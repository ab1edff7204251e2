#!/bin/bash
# Builds the modules of /repo that build offline (in a scratch copy of the workspace that
# /opt/vp/build.sh uses) and runs demo.rs beside this script against them.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
tar -C /opt/vp/ws --exclude=./target --exclude=./test.log -cf - . | tar -C "$tmp" -xf -
pkg=@PKG@
mkdir -p "$tmp/@DIR@/tests"
cp "$here/demo.rs" "$tmp/@DIR@/tests/demo.rs"
cd "$tmp" || exit 2
export TMPDIR="$tmp"
cargo test --offline -p "$pkg" --test demo -- --test-threads 1 >"$tmp/log" 2>&1
rc=$?
grep -v "^ *[0-9]*: \|^ *at /" "$tmp/log" | tail -n 30
[ $rc -eq 0 ] && exit 0
grep -q '^test result: FAILED' "$tmp/log" && exit 1
grep -qE 'panicked at|process didn.t exit successfully|SIGABRT|signal' "$tmp/log" && exit 1
exit 3
