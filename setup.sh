#!/bin/bash
# Nothing has to be built in advance: every check compiles what it needs from /repo. This only checks the tools.
set -e
cd "$(dirname "$0")"
cargo kani --version
z3 --version
python3 -c 'import json'
mkdir -p evidence target
