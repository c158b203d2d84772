#!/usr/bin/env bash
# plant.sh <id>: confirm a planted bug, seeded/<id>/{patch.diff,demo.sh,meta.json}, in a scratch copy of /repo:
# it applies, builds, passes the stable tests, and its demonstration tells the trees apart.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; W=/tmp/w/plant.$$
mkdir -p /tmp/w; cp -a /repo "$W"; trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export CARGO_TARGET_DIR=$W/target
cargo build --offline -q 2>/dev/null || { echo "$1: base does not build"; exit 2; }
HUSH=$W/target/debug/hush bash "$S/demo.sh" >/dev/null 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$1: does not apply"; exit 2; }
cargo build --offline -q 2>/tmp/w/err.$$ || { echo "$1: does not build"; tail -30 /tmp/w/err.$$; exit 2; }
HUSH=$W/target/debug/hush bash "$S/demo.sh" >/dev/null 2>&1; b=$?
t=$(timeout 300 cargo test --offline 2>&1 | grep -E '^test result' | head -1)
echo "$1: demo base=$a patched=$b; $t"
[ $a = 0 ] && [ $b != 0 ] && [[ $t == *" 0 failed"* ]] && echo "$1: OK" || echo "$1: BAD"
