#!/bin/bash
# builds main.rs against the tree in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
. /opt/vp/env.sh; cd "$repo" || exit 1
w=$(mktemp -d) || exit 1
mkdir "$w/src" "$w/run"
cp "$here/main.rs" "$w/src/main.rs"; cp "$here/Cargo.lock" "$w/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cd "$w" && cargo build --offline --target-dir "$repo/target" >"$w/log" 2>&1 || { tail -20 "$w/log"; rm -r "$w"; exit 3; }
cp "$repo/target/debug/demo" "$w/demo"
cd "$w/run" && timeout 200 "$w/demo"; s=$?
cd /; rm -r "$w"
exit $s
