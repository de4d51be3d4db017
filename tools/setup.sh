#!/bin/bash
# nothing to build: checks that the pieces the simulator needs are present
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
mkdir -p "$here/evidence" "$here/replays"
cd "$here" && exec "$py" -B -W ignore -c "
import sys
assert sys.version_info >= (3, 12) and hasattr(sys, 'monitoring'), 'needs Python 3.12'
import numpy, sympy
import sim.main
print('simulator ready')"
