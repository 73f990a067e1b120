#!/bin/bash
# nothing to compile: the checks import /repo's working tree and run TLC from the committed specifications
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -f /opt/veriftools/tla/tla2tools.jar
PYTHONPATH=/repo /opt/venv/bin/python -c "import simpeg, sys; assert simpeg.__file__.startswith('/repo/'), simpeg.__file__"
