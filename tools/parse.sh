#!/bin/bash
# parse.sh: parse every module of the specification (names of one module may clash with those of another)
cd "$(dirname "$0")/../spec" || exit 3
J=$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')
r=0
for m in *.tla; do
  o=$(java -cp "$J" tla2sany.SANY "$m" 2>&1) && ! grep -q '\*\*\* Errors\|Abort' <<<"$o" || { echo "$m"; grep -A3 '^\*\*\* Errors' <<<"$o"; r=1; }
done
exit $r
