#!/bin/bash
# C21: see c21.py
cd "$(dirname "$0")/.." || exit 2
exec python3 checks/c21.py "$@"
