#!/bin/bash
# Nothing to install: each check compiles its harness from /repo's current tree.
set -e
for t in g++ python3; do command -v $t >/dev/null; done
python3 -c 'import ast,sys; ast.parse(open("check.py").read())'
g++ --version | head -1
