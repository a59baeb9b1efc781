#!/bin/sh
# Nothing is prebuilt: every check builds what it needs from /repo's tree.
set -e
for t in gcc g++ make python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -m py_compile bin/check bin/props.py
rm -rf bin/__pycache__
