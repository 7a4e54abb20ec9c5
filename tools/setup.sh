#!/bin/sh
# nothing is built ahead: every check compiles /repo's current sources itself
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence
python3-vt -c 'import z3' && command -v clang >/dev/null && command -v llvm-link >/dev/null && command -v cvc5 >/dev/null
