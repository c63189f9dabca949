#!/bin/bash
# Development tool: evaluate.sh [-a] [ID...]  runs the property's quick check (-a: all checks)
# against a scratch clone of /repo with the planted bug and prints what is reported.
all=; [ "$1" = -a ] && { all=1; shift; }
cd /verif
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  w=$(mktemp -d /tmp/eval.XXXXXX)
  git clone -q /repo $w/r && git -C $w/r apply /verif/seeded/$id/patch.diff || { echo "$id cannot apply"; find "$w" -delete; continue; }
  own=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  props=$own; [ -n "$all" ] && props=$(python3 -c "import json;print(*[c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])" 2>/dev/null || seq -f C%02g 19)
  line=; mkdir -p $w/out; cp KNOWN_FINDINGS.txt $w/out/
  for p in $props; do
    s=$(date +%s)
    SIM_REPO=$w/r SIM_OUT=$w/out VERIF_SEED=1 ./check.sh $p ${TIER:-quick} >$w/log 2>&1; rc=$?
    e=$(( $(date +%s) - s ))
    if [ -z "$all" ]; then line+=" $p=$rc(${e}s) $(grep -m1 -A3 '^VIOLATION' $w/log | tr '\n' ' ' | cut -c1-${WIDTH:-200})"; [ $rc -gt 1 ] && line+=$(tail -3 $w/log); [ $rc = 0 ] && line="  ***MISSED*** $line";
    elif [ $rc != 0 ]; then line+=" $p:$rc"; fi
  done
  echo "$id:$line"
  find "$w" -delete
done
