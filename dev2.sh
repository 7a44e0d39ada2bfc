#!/bin/bash
# dev2.sh MODE PROP: build instrumented (sched) or race and run one shard in-process (development aid).
. /verif/lib.sh
T=/tmp/zzdev2; mkdir -p $T
B=$(cd /verif && python3 -c "
import check,sys
m=sys.argv[1]
print(check.build('$T', instrument=m!='plain', race=m=='race'))" $1) || { echo "$B"; exit 2; }
cd $T && ZZ_PROP=$2 ZZ_MODE=$1 ZZ_TIER=${VERIF_TIER:-quick} ZZ_BUDGET=${ZZ_BUDGET:-120} ${B##*$'\n'} -test.run 'TestZZ$' -test.timeout 0
