#!/bin/bash
# The checks build everything they need in a scratch directory of their own; this only verifies the tools.
set -e
cd "$(dirname "$0")"
for t in clang++-18 llvm-config-18 g++ protoc python3 nm; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -e /opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/include/z3.h
python3 -c "import json; [json.loads(l) for l in open('properties.jsonl')]"
