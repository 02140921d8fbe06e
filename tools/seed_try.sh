#!/bin/bash
# seed_try.sh ID...: demo on the clean tree, then apply, build, stable tests, demo, check of the property, undo.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    t=$(mktemp -d)
    cp -r "$d" "$t/s"
    bash "$t/s/demo.sh" >"$t/clean.log" 2>&1; clean=$?
    git apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
    build=skip; tests=skip
    if [ -z "$NOBUILD" ]; then
    bash /opt/vp/build.sh >"$t/build.log" 2>&1; build=$?
    bash /opt/vp/test.sh "$t/t.json" >"$t/test.log" 2>&1
    tests=$(python3 - "$t/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
print('lost:',len([x for x in b['stable'] if x not in set(r.get('passed',[]))]), 'of', len(b['stable']))
P
)
    fi
    bash "$t/s/demo.sh" >"$t/bug.log" 2>&1; bug=$?
    if [ -z "$NOCHECK" ]; then
    (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop --tier quick >"$t/check.log" 2>&1); chk=$?
    v=$(grep -m1 "^VIOLATION" "$t/check.log" | cut -c1-120)
    fi
    git checkout -q -- .
    echo "$id prop=$prop demo_clean=$clean build=$build tests=[$tests] demo_bug=$bug check=$chk $v"
    [ "$clean" = 0 ] || tail -3 "$t/clean.log"
    tail -2 "$t/bug.log" | cut -c1-200
    [ "$chk" = 1 ] || tail -3 "$t/check.log" | cut -c1-300
    case "$t" in /tmp/tmp.*) rm -rf "$t";; esac
done
