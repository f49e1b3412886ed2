#!/bin/bash
# nothing to install: checks that the tools are there
set -e
for t in clang gcc g++ flex bison python3 python3-vt z3 cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
