#!/bin/sh
# Nothing to compile: the specification is read by TLC and the code is run from /repo.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -B -c 'import numpy, pandas'
mkdir -p evidence
