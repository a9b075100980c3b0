#!/bin/sh
# Nothing to build: check that the simulator and the package from /repo's working tree load.
cd "$(dirname "$0")/.." || exit 2
P=/opt/venv/bin/python
[ -x $P ] || P=python3
exec $P -B -c "
from sim import runner, proc, world, lib
runner._init()
w = world.World({})
with w:
    proc.Proc(w)
w.destroy()
print('simulator ready')"
