#!/bin/bash
# builds every harness once; checks rebuild incrementally
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays sim/target
python3 sim/mirror.py || exit 1
cd sim && cargo build --offline -q $(ls -d h_*/ | sed 's#/##; s#^#-p #') 2> target/build.log || { tail -60 target/build.log; exit 1; }
echo setup done
