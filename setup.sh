#!/bin/bash
# The checks build everything they need from /repo at run time; this only verifies the tools are there.
set -e
for t in gcc g++ clang clang++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/build"
python3 -c "import json,sys; json.load(open('MANIFEST.json'))"
echo ok
