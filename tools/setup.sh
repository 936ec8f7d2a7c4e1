#!/bin/sh
# Nothing to compile: checks that the interpreter, the library and the simulator import.
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
from dst import seams
seams.install()
import dst.runner
print('simulator ready')"
