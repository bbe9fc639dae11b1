#!/bin/bash
# tools/seedcheck.sh ID [PROPERTY...]: tries a planted bug in a scratch copy: tests pass, demo 0 / non-zero, check
id=$1; shift
s=/verif/seeded/$id
props=${@:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
d=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo $d/repo
mkdir $d/demo; cp $s/* $d/demo/; rm -f $d/demo/patch.diff $d/demo/meta.json
cd $d/repo
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$d/repo
timeout 300 bash $d/demo/demo.sh >$d/o1 2>&1; r1=$?
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
timeout 300 bash $d/demo/demo.sh >$d/o2 2>&1; r2=$?
/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider >$d/o3 2>&1; r3=$?
echo "$id: demo clean=$r1 patched=$r2 tests=$r3 $(tail -1 $d/o3)"
[ $r1 = 0 ] || tail -5 $d/o1
[ -n "$VERBOSE" ] && tail -5 $d/o2
[ $r3 = 0 ] || tail -15 $d/o3
for p in $props; do
  (cd /verif; unset PYTHONPATH; VERIF_REPO=$d/repo timeout 900 python3-vt run_check.py $p >$d/o4 2>&1; echo "   check $p: exit $? $(grep VIOLATION $d/o4 | head -2| tr '\n' ' ')")
  [ -n "$VERBOSE" ] && tail -12 $d/o4
done
