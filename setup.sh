#!/bin/sh
# Nothing to prepare: every check builds the simulator from /repo itself.
set -e
cd "$(dirname "$0")"
g++ --version >/dev/null
python3 gen.py
