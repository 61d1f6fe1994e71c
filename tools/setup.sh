#!/bin/sh
# Everything is built by the checks themselves, from /repo's current tree, in a scratch folder.
command -v java javac g++ clang++ python3 >/dev/null || { echo "missing tool"; exit 1; }
mkdir -p "$(dirname "$0")/../evidence"
