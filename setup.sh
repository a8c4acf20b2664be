#!/bin/bash
# Builds the program extractor (checks build it on demand when it is missing).
set -e
cd "$(dirname "$0")"
python3 -c 'import sys; sys.path.insert(0, "sa"); import prog; print(prog.extractor())'
