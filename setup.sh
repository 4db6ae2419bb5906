#!/bin/bash
# Nothing is prebuilt: every check compiles its harness from /repo's working tree.
set -e
g++ --version | head -1
python3 --version
mkdir -p "$(dirname "$0")/evidence/replay"
