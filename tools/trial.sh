#!/bin/bash
# trial.sh <patch> <check>...: run checks against a scratch copy of /repo with the patch applied
W=/tmp/trialwt
[ -d $W ] || git clone -q /repo $W
git -C $W fetch -q origin; git -C $W reset -q --hard origin/HEAD; git -C $W clean -fdq
p=$1; shift; [ "$p" = - ] || p=$(realpath "$p")
[ "$p" = - ] || git -C $W apply "$p" || exit 9
for c in "$@"; do
  VERIF_REPO=$W VERIF_BUILD=/tmp/trialbuild VERIF_EVIDENCE=/tmp/trialev python3 /verif/analysis/check.py $c | grep -v '^VIOLATION' | head -c ${OUT:-900}; echo "  -> $c rc=${PIPESTATUS[0]}"
done
