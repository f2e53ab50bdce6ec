# mm.sh CHECK SCN file 'sed expr' : quick mutant
W=/tmp/mmw.$$; mkdir -p $W; git -C /repo archive HEAD effector | tar x -C $W; sed -i "$4" $W/effector/$3; diff -r /repo/effector $W/effector | grep '^[<>]' | head -4
MC_REPO=$W nice -n 10 /opt/venv/bin/python -W ignore /tmp/vw/mc/run.py $1 ${2:+--only $2} 2>&1 | grep -A9 "VIOL\|quick:" | head -9; rm -rf $W
