#!/bin/bash
# stage1.sh DIR: runs the repository's tests on every mutant of DIR; DIR/survivors lists the ones that pass.
. /opt/vp/env.sh
export D=$1
one() {
  . /opt/vp/env.sh
  m=$1; f=$(cut -d' ' -f1 $D/$m.txt)
  echo "{\"Replace\": {\"/repo/gitdiff/$f\": \"$D/$m.go\"}}" >$D/$m.json
  cd /repo && ulimit -v 12000000 && if timeout 60 go test -vet=off -count=1 -timeout 20s -overlay $D/$m.json ./gitdiff >/dev/null 2>&1; then echo $m; fi
}
export -f one
ls $D | grep '\.txt$' | sed 's/.txt//' | xargs -P 8 -I{} bash -c 'one {}' >$D/survivors
wc -l $D/survivors
