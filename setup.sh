#!/bin/bash
# Nothing to compile: check that the code under test imports on the simulator.
cd /tmp || exit 1
exec env PYTHONPATH="$(dirname "$(readlink -f "$0" 2>/dev/null || echo /verif/setup.sh)"):/verif:/repo" PYTHONDONTWRITEBYTECODE=1 \
  /opt/venv/bin/python -c "
import os
from dst import world
world.install()
import ipyparallel, shutil
print('simulator ready, code from', ipyparallel.__file__)
shutil.rmtree(world._scratch, ignore_errors=True)
os._exit(0)"
