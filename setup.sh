#!/bin/bash
# nothing to build: checks that the tools the engine needs are there
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c 'import pyvc, z3; print("z3", z3.get_version_string())'
