#!/bin/bash
# check.sh <harness> <property>: rebuild the harness from /repo's current tree and run one check.
# exit 0 held, 1 violation (VIOLATION line), 2 no answer (build or harness failure)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
h=$1; id=$2
python3 sim/mirror.py || exit 2
if ! (cd sim && cargo build --offline -q -p "$h" 2> target/build-"$h".log); then
  grep -A12 -E '^error' sim/target/build-"$h".log | head -60
  echo "harness error: $h does not build against the current tree"
  exit 2
fi
exec sim/target/debug/"$h" check "$id"
