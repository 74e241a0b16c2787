#!/bin/bash
# nothing to compile: checks run from source. Verify that the tools are there.
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -c 'import sys; assert sys.version_info[:2] == (3, 12), sys.version'
mkdir -p evidence replays
