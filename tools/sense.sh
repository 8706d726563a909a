#!/bin/bash
# sense.sh (PATCH|GITREF) SCALE ID...   run checks' tests against a scratch copy of /repo with a patch (or at a ref)
. /opt/vp/env.sh
what=$1; sc=$2; shift 2
w=$(mktemp -d /tmp/sense.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir $w/repo $w/tmp
if [ -f "$what" ]; then
  git -C /repo archive HEAD | tar x -C $w/repo
  (cd $w/repo && git init -q . && git apply "$(realpath "$what")") || { echo "PATCH DOES NOT APPLY"; exit 3; }
else
  git -C /repo archive "$what" | tar x -C $w/repo
fi
sed "s#=> /repo#=> $w/repo#; s#=> \.\./objecthash#=> /verif/objecthash#" /verif/harness/go.mod > $w/go.mod
cp /verif/harness/go.sum $w/go.sum
cd /verif/harness
go test -c -vet=off -modfile=$w/go.mod -o $w/h.test ${RACE:+-race} . || { echo "BUILD FAILS"; exit 3; }
for i in "$@"; do
  pids=()
  for s in 1 2 3 4 5 6 7 8; do
    (cd $w; VH_TMP=$w/tmp VH_SCALE=$sc VH_SHARDS=8 VH_SHARD=$((s-1)) VH_SEED=$s timeout 900 $w/h.test -test.run "^Test${i}(_|\$)" -rapid.seed=$((s*77+${SEED:-0})) -rapid.nofailfile -rapid.shrinktime=3s > $w/$i.$s 2>&1; echo "rc=$?" >> $w/$i.$s) &
    pids+=($!)
  done
  wait ${pids[@]}
  bad=$(grep -L '^rc=0' $w/$i.? | wc -l)
  echo "$i: $bad of 8 shards fail"
  [ $bad -gt 0 ] && f=$(grep -L '^rc=0' $w/$i.? | head -1) && grep -v "^badger\|INFO:\|DEBUG:" $f | grep -A${LINES_:-3} 'rapid\] \(fail\|panic\)\|panic:\|VH-HANG\|DATA RACE\|fatal error' | head -${LINES_:-4} | cut -c1-400
done
exit 0
