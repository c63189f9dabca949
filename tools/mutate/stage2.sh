#!/bin/bash
# stage2.sh DIR LIST OUT PERCENT: runs all checks, PERCENT of their quick runs each (one worker),
# against every mutant named in LIST; OUT gets one line per mutant: "ID PROP" or "ID -" if none objects.
. /opt/vp/env.sh
export D=$1 OUT=$3 PC=$4
export HERE=${HERE:-/verif}
one() {
  . /opt/vp/env.sh
  m=$1; f=$(cut -d' ' -f1 $D/$m.txt)
  w=$(mktemp -d /tmp/mut2.XXXXXX); cp -r /repo $w/r; cp $D/$m.go $w/r/gitdiff/$f
  cd $HERE/sim
  sed "s#=> .*#=> $w/r#" go.mod >$w/go.mod
  r=-
  if ! (/tmp/mut_instrument $w/r $w/ov && GOFLAGS= go build -p 1 -modfile=$w/go.mod -overlay $w/ov/overlay.json -o $w/sc ./cmd/simcheck) >$w/log 2>&1; then r=BUILD; else
  case $f in
    apply*.go|io.go) order="C06 C13 C21 C01 C03 C05 C02 C10 C15 C14 C04";;
    base85.go|binary*.go) order="C10 C07 C17 C02 C22 C15 C18 C09 C08 C16";;
    format.go) order="C18 C11 C16";;
    patch_*.go) order="C19 C20 C16 C11 C12";;
    *) order="C07 C22 C23 C08 C09 C18 C21 C16 C10 C19 C20";;
  esac
  for p in $order C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23; do
    [[ " $done_ " == *" $p "* ]] && continue
    done_+=" $p"
    n=$(awk -v p=$p -v pc=$PC '$1==p{printf "%d", $2*pc/100}' /tmp/quickruns)
    (ulimit -v 20000000; GOMAXPROCS=2 timeout 900 $w/sc run -prop $p -tier quick -seed 1 -out $w/o -tmp $w -note x -runs $n -workers 1) >$w/log 2>&1; rc=$?
    if [ $rc = 1 ]; then r="$p $(grep -m1 -o 'class=.*' $w/log | head -c 100)"; break; fi
    if [ $rc != 0 ]; then r="$p rc=$rc $(tail -1 $w/log | head -c 150)"; break; fi
  done
  fi
  echo "$m $r" >>$OUT
  find $w -delete
}
export -f one
cat $2 | xargs -P 8 -I{} bash -c 'one {}'
