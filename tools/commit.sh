#!/bin/bash
# regenerate the listing and commit /verif
cd "$(dirname "$0")/.." && python3 tools/props.py && python3 tools/manifest.py && git add -A && git commit -qm "$1" && git log --oneline | head -1
