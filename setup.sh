#!/bin/sh
# Builds the symbolic executor from the committed sources.
cd "$(dirname "$0")" && exec python3 -c 'import run; print(run.build_engine())'
