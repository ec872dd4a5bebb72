#!/bin/bash
# try_seed.sh <id> [notest]: verify a planted bug in a scratch copy and run its property's check on it
id=$1; d=/verif/seeded/$id; s=/tmp/seed_$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
rm -rf "$s"; cp -a /repo "$s"; cp -a $d /tmp/demo_$id
run() { (cd $s && env PYTHONPATH=$s PATH=/opt/venv/bin:$PATH timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/demo_$id/out 2>&1; echo $?); }
a=$(run); git -C $s apply $d/patch.diff || exit 1; b=$(run)
echo "$id demo clean=$a patched=$b: $(tail -1 /tmp/demo_$id/out)"
if [ "$2" != notest ]; then
 mods=$(git -C $s diff --name-only | xargs -n1 basename | sed 's/.py//' | paste -sd'|')
 (cd $s && PYTHONPATH=$s PATH=/opt/venv/bin:$PATH OPENMDAO_REPORTS=0 timeout 850 /opt/venv/bin/python -m pytest -q -x -n 6 -p no:cacheprovider --deselect aviary/validation_cases/benchmark_tests/test_bench_solved2dof.py aviary 2>&1 | tail -4)
fi
VERIF_REPO=$s VERIF_TIER=quick timeout 900 /verif/check.sh $prop > /tmp/demo_$id/check 2>&1; echo "$id check $prop rc=$? $(grep -c ^VIOLATION /tmp/demo_$id/check) $(grep clauses /tmp/demo_$id/check)"
tail -2 /tmp/demo_$id/check | cut -c1-300
rm -rf "$s" "/tmp/demo_$id"
