#!/bin/bash
# Development tool: run.sh [GROUP...]  applies behaviour-preserving edits to a scratch
# clone, runs the repository's tests and every check; all must be quiet.
here=$(cd "$(dirname "$0")" && pwd); . /opt/vp/env.sh
for g in ${@:-A B C D E F G H I}; do
  w=$(mktemp -d /tmp/refac.XXXXXX); git clone -q /repo $w/r
  python3 - "$here/refactors.py" $g $w/r <<'P' || continue
import sys
ns={}; exec(open(sys.argv[1]).read(),ns)
for f,old,new in ns["G"][sys.argv[2]]:
    p=sys.argv[3]+"/gitdiff/"+f; s=open(p).read()
    if s.count(old)!=1: sys.exit("group %s %s: %d matches: %r"%(sys.argv[2],f,s.count(old),old[:70]))
    open(p,"w").write(s.replace(old,new))
P
  (cd $w/r && gofmt -l gitdiff; go vet ./gitdiff && go test ./... 2>&1 | tail -3)
  for p in ${PROPS:-$(seq -f C%02.0f 23)}; do
    mkdir -p $w/out; cp ${VERIF:-/verif}/KNOWN_FINDINGS.txt $w/out/
    SIM_REPO=$w/r SIM_OUT=$w/out ${VERIF:-/verif}/check.sh $p quick >$w/log 2>&1; rc=$?
    [ $rc != 0 ] && { echo "group $g: $p exit $rc"; grep -A12 -m1 '^VIOL\|error' $w/log | cut -c1-300; cp -r $w/out /tmp/refac-$g-$p; }
    grep "check.sh: plain" $w/log
  done
  echo "group $g done"; find "$w" -delete
done
