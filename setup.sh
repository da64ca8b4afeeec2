#!/bin/sh
# Nothing to install: every check compiles its own harness from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays .build
python3 -c 'import checks' && g++-13 --version >/dev/null && clang++-18 --version >/dev/null
