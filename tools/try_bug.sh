#!/bin/bash
# try_bug.sh ID [nocheck]: demo clean, apply, build, tests, demo patched, check; always restores /repo.
. /opt/vp/env.sh 2>/dev/null
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
restore() { git -C /repo checkout -q -- .; }
trap restore EXIT
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 9; }
cd /repo
bash $d/demo.sh >/tmp/try.$id.clean 2>&1; rc=$?
echo "$id [$prop] demo clean rc=$rc"; [ $rc = 0 ] || { tail -5 /tmp/try.$id.clean; }
git apply $d/patch.diff || { echo "patch does not apply"; exit 9; }
bash $d/demo.sh >/tmp/try.$id.bug 2>&1; rc=$?
echo "   demo patched rc=$rc: $(tail -2 /tmp/try.$id.bug | cut -c1-200)"
if [ "${SKIPTEST:-}" = "" ]; then
bash /opt/vp/build.sh >/tmp/try.build 2>&1 || echo "   BUILD FAILED"
bash /opt/vp/test.sh /tmp/o.json >/tmp/try.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','tests'):
            if k in x:
                v=x[k]
                if isinstance(v,list): return set(v)
                if isinstance(v,dict): return {a for a,c in v.items() if c in ('pass','passed','ok',True)}
    return set()
m=passed(b)-passed(o)
print("   stable tests missing:",sorted(m) if m else "none", len(passed(b)))
P
fi
if [ "${2:-}" != nocheck ]; then
cd /verif
VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh $prop >/tmp/try.$id.check 2>&1; rc=$?
echo "   check rc=$rc: $(grep -m1 VIOLATION /tmp/try.$id.check | cut -c1-250)"
rm -rf /verif/replays/*
fi
