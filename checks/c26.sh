#!/bin/bash
# C26: see c26.py
cd "$(dirname "$0")/.." || exit 2
exec python3 checks/c26.py "$@"
