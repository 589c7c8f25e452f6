#!/bin/sh
# the framework is interpreted; this only checks that its tools are present
set -e
cd "$(dirname "$0")"
command -v python3-vt g++ clang++-18 llvm-link-18 cvc5 >/dev/null
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p evidence replays
