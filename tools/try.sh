#!/bin/bash
# tools/try.sh PATCH ID...: run checks against a scratch copy of /repo with PATCH applied (development aid)

P=$(realpath "$1"); shift
D=$(mktemp -d /tmp/try.XXXXXX)
mkdir -p $D
git -C /repo archive HEAD | tar x -C $D
(cd $D && git init -q . && git apply "$P")
cd "$(dirname "$0")/.."
cp -r evidence $D/.ev 2>/dev/null || true
for i in "$@"; do
  VERIF_REPO=$D VERIF_EVIDENCE=$D/.ev VERIF_CACHE=/tmp/vcache timeout 900 python3 check.py $i > $D/.out 2>&1; rc=$?
  echo "$i rc=$rc"; grep -v '^ *for {' $D/.out | cut -c1-260 | tail -${LINES_OUT:-4}
done || true
rm -rf "$D"
