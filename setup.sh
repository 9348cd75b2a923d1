#!/bin/sh
# Nothing to build: the encoding is regenerated from /repo on every run. This
# only makes sure that the interpreter, the solver and the code are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
./check.py C10 --case prefetch-xp-1
