#!/bin/bash
# dev.sh PROP [env...]: build the harness against /repo and run one property in-process (development aid).
. /verif/lib.sh
T=${ZZ_DIR:-/tmp/zzdev}; mkdir -p $T
build_overlay $T && build_bin $T $T/zz.bin || exit 2
cd $T && ZZ_PROP=$1 ZZ_TIER=${VERIF_TIER:-quick} ZZ_BUDGET=${ZZ_BUDGET:-120} ./zz.bin -test.run 'TestZZ$' -test.timeout 0 
