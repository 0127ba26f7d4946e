#!/bin/bash
# Nothing to compile: check that the interpreter, the library and the harness load.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
exec /opt/venv/bin/python -W ignore -c "import mc.core, mc.rng, mc.fsim, pfrl; print('ok')"
