#!/bin/sh
# nothing to compile: the verifier is Python over the installed z3/cvc5/clang; check they are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
python3-vt -c 'import z3' && clang --version >/dev/null && cvc5 --version >/dev/null && echo ok
