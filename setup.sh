#!/bin/sh
# Nothing to build: check that the tools the checks need are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3, sys; sys.path.insert(0, '.'); import registry" || exit 1
git --version && /opt/venv/bin/python -c "import fasteners, appdirs"
