#!/bin/bash
# all contracts; only the problems are shown in full
cd "$(dirname "$0")/.."
for p in ${@:-$(grep -ohE "'(C[0-9]{2}[ C0-9]*)'" contracts/*.py | grep -oE 'C[0-9]{2}' | sort -u)}; do
  python3-vt engine/prove.py $p --procs 8 | sed "s/^/$p /" | cut -c1-230
done
