#!/bin/bash
# development aid: run or replay cases of a Python-level property:  pyrp.sh M01 [case] ; TIER=quick
cd ${VW:-/verif}; R=${HB_REPO:-/repo}; export HB_REPO=$R; P=$(python3 -c 'import hbuild;print(hbuild.build("rel",py=True))'|tail -1)
D=/tmp/pyrp-$$; mkdir -p $D; cp -r $R/python/src/hydrobricks $D/; cp $P/_hydrobricks.so $D/hydrobricks/
export PYTHONPATH=$PWD/harness/py/shims:$D PYTHONDONTWRITEBYTECODE=1 HB_SCRATCH=$D/s
if [ -n "$PYC" ]; then python3-vt -c "$PYC"; else
python3-vt harness/py/pyexplore.py $1 --tier ${TIER:-quick} ${2:+--replay "$2"} ${SHARD:+--shard $SHARD} -v; fi
cd /; rm -rf /tmp/pyrp-$$
