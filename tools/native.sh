#!/bin/bash
# contracts run natively against the code, thorough tier: tools/native.sh [PIDs]
cd "$(dirname "$0")/.."
for p in ${@:-C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C16 C17 C18 C19 C20 C22}; do
  echo "$p"
  names=$(/opt/venv/bin/python - "$p" <<'P'
import sys
sys.path.insert(0, 'rt')
import difft
print(','.join(s.name for s in difft.subs(sys.argv[1], {})))
P
)
  /opt/venv/bin/python rt/main.py "$p" --tier thorough --limit 200 --only "$names" 2>&1 | grep -v "'skipped': None" | cut -c1-900
done
