#!/bin/bash
# mkseed.sh <id> <property> <members...>: takes the uncommitted change of /repo as the patch of seed <id>
# (needs /verif/seeded/<id>/main.rs), packs the kit, restores /repo.
id=$1; shift; 
d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
[ -s $d/patch.diff ] || { echo empty patch; exit 1; }
python3 /verif/tools/mkkit.py $id "$@"
