#!/bin/bash
# C22: see c22.py
cd "$(dirname "$0")/.." || exit 2
exec python3 checks/c22.py "$@"
