#!/bin/bash
# Nothing to compile: check that the interpreter, the code under test and the monitors load.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONPATH=/repo:"$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -W ignore -c "from mon import checks, trace, gen; import prodsys; assert prodsys.__file__.startswith('/repo/'); print(len(checks.known()), 'checks')"
