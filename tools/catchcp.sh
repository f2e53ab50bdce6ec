#!/bin/bash
# catchcp.sh VW ids... : apply each seed to a copy and run its own property's quick check (or CHECKS="C01 C02")
vw=$1; shift
for id in "$@"; do
  W=/tmp/sd.$$.$id; rm -rf "$W"; mkdir -p "$W"; git -C ${SRC:-/tmp/rw} archive HEAD effector | tar x -C "$W"
  (cd "$W" && git init -q . 2>/dev/null && git apply $vw/seeded/$id/patch.diff) || echo "$id NOAPPLY"
  p=$(python3 -c "import json;print(json.load(open('$vw/seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); MC_REPO=$W timeout 1500 nice -n 15 /opt/venv/bin/python -W ignore $vw/mc/run.py $c > /tmp/catch.$id.$c 2>&1; rc=$?
    echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -A12 VIOLATION /tmp/catch.$id.$c | tail -12 | tr '\n' ' ' | cut -c1-260)"
  done
  rm -rf "$W"
done
