#!/bin/bash
# Nothing to build: checks that the interpreter and its YAML module are there.
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -B -c 'import sys, yaml; assert sys.version_info >= (3, 12)'
