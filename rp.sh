#!/bin/bash
# development aid: replay one case verbosely:  rp.sh B01 case
cd /verif; EXE=$(python3 -c 'import hbuild;print(hbuild.build("rel"))'|tail -1); HB_DUMP=1 $EXE $1 --tier ${3:-quick} --replay "$2" -v --out /dev/stdout
