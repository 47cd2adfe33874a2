#!/bin/bash
# Builds the storage engine of /repo (current directory) in a scratch folder against simulated
# std/arrow/protobuf stand-ins (kit.tgz) and runs main.rs against it. 0: fine, non-zero: broken.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/optidemo.XXXXXX) || exit 3
trap 'rm -rf -- "${tmp:?}"' EXIT
export SIM_REPO="$PWD"
tar xzf "$here/kit.tgz" -C "$tmp" && cp "$here"/*.rs "$tmp/sim/demo/src/" || exit 3
cd "$tmp/sim" && python3 mirror.py && cargo build --offline -q -p demo > build.log 2>&1 || { tail -40 build.log; exit 4; }
timeout 100 target/debug/demo
