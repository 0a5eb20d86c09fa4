#!/bin/bash
# C23: see c23.py
cd "$(dirname "$0")/.." || exit 2
exec python3 checks/c23.py "$@"
