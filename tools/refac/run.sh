#!/bin/bash
# run.sh SCRIPT PIDS... : apply refactor to a copy, run suite, run checks
. /tmp/w/env
s=$1; shift
d=/tmp/refac/repo-$(basename $s .py); rm -rf /tmp/refac/repo-$(basename $s .py); cp -a /tmp/w/repo $d
python3 $s $d || exit 1
(cd $d && gofmt -l pkg; go build ./... && go vet ./pkg/... && go test ./... 2>&1 | grep -v "no test files\|^ok") 
for p in "$@"; do
 VERIF_REPO=$d VERIF_TIER=quick timeout 900 /tmp/w/gosym check $p quick > /tmp/refac/out-$(basename $s .py)-$p 2>&1; rc=$?
 echo "$p rc=$rc $(grep -c 'exhaustive=true' /tmp/refac/out-$(basename $s .py)-$p)/$(grep -c 'exhaustive=' /tmp/refac/out-$(basename $s .py)-$p) $(grep -i 'VIOLATION\|INCOMPLETE\|unsupported' /tmp/refac/out-$(basename $s .py)-$p | head -3 | cut -c1-300)"
done
