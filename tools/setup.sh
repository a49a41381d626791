#!/bin/bash
# nothing to build: the specifications are interpreted by TLC, the code under test is imported from /repo
set -e
cd "$(dirname "$0")/.."
java -version 2>&1 | head -1
test -r /opt/veriftools/tla/tla2tools.jar
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c 'import nlcodec, numpy; print("nlcodec", nlcodec.__version__)'
mkdir -p evidence out
