#!/bin/sh
# usage: run.sh cNN            run a check (VERIF_SEED, VERIF_TIER)
#        run.sh replay FILE    re-execute a replay file
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
P=/opt/venv/bin/python
[ -x $P ] || P=python3
exec $P -B -m sim.runner "$@"
