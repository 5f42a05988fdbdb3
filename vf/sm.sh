#!/bin/bash
# developer helper: run a check and print a short summary
P=$1; T=${2:-quick}
rm -f /tmp/$P.txt
VF_DUMP=/tmp/$P.txt timeout 1500 /opt/venv/bin/python /verif/vf/run.py $P $T > /tmp/$P.out 2>&1; echo "exit $?"; grep "programs," /tmp/$P.out | cut -c1-300; tail -1 /tmp/$P.out | cut -c1-200
python3 /verif/vf/sm.py $P ${3:-25}
