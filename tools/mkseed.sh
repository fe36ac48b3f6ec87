#!/bin/bash
# mkseed.sh <id> <property>: the edit has been made in /tmp/seedwt (a scratch copy of /repo); demo files are in /tmp/sd; writes seeded/<id>/
set -e
V=/verif; id=$1; prop=$2; needs=$3; breaks=$4
mkdir -p $V/seeded/$id
git -C /tmp/seedwt diff > $V/seeded/$id/patch.diff
test -s $V/seeded/$id/patch.diff
cp /tmp/sd/* $V/seeded/$id/
python3 - "$V/seeded/$id/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
git -C /tmp/seedwt checkout -q -- .
