#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
set -e
cd "$(dirname "$0")"
python3 -c 'import run; run.engine()'
test -x build/nsym
