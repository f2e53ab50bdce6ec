#!/bin/bash
# mcall.sh COPY OUTLOG [ids...]
cp=$1; out=$2; shift 2
ids="$@"; [ -z "$ids" ] && ids=$(seq -f 'C%02.0f' 1 23)
for c in $ids; do
  s=$(date +%s)
  MC_REPO=$cp timeout 1500 nice -n 17 /opt/venv/bin/python -W ignore ${VW:-/verif}/mc/run.py $c > $out.$c 2>&1; rc=$?
  echo "$c rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOLATION $out.$c)" >> $out
done
echo done >> $out
