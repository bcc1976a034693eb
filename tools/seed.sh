#!/bin/bash
# Try planted bugs in a private copy mounted over /repo:  seed.sh [-c] id...
#   demo on the unchanged tree, then with the patch: build, stable tests, demo, the check of its property.
#   -c: only the check
only=0; [ "$1" = "-c" ] && only=1 && shift
for id in "$@"; do
    S=/verif/seeded/$id
    P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    W=/tmp/sd-$id
    rm -rf $W; cp -a /repo $W
    export S P id only
    unshare -Urm bash -c '
        mount --bind /tmp/sd-'$id' /repo
        D=$(mktemp -d /tmp/demo-XXXX); cp -a $S/. $D/; rm -f $D/*.diff $D/meta.json
        cd /repo
        if [ $only = 0 ]; then
            bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: base build failed"
            timeout 300 bash $D/demo.sh > $D/o1 2>&1; r=$?; [ $r = 0 ] || { echo "$id: demo fails ($r) on the unchanged tree"; tail -5 $D/o1; }
        fi
        git apply $S/patch.diff || { echo "$id: patch does not apply"; exit; }
        if [ $only = 0 ]; then
            bash /opt/vp/build.sh >/tmp/demo-build-$id.log 2>&1 || echo "$id: build failed"
            bash /opt/vp/test.sh /tmp/demo-$id.json >/dev/null 2>&1
            python3 - <<E2
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/demo-$id.json"))
base=b.get("stable") or b.get("passed") or b.get("tests") or b
m=[x for x in base if x not in t["passed"]]
print("$id: tests lost:", m) if m else None
E2
            timeout 300 bash $D/demo.sh > $D/o2 2>&1; r=$?; [ $r != 0 ] || { echo "$id: demo passes with the patch"; tail -5 $D/o2; }
        fi
        cd /verif
        timeout 900 python3 checks/run.py $P > $D/o3 2>&1; r=$?
        echo "$id: check $P exit $r: $(grep -v "^VIOL" $D/o3 | head -1 | cut -c1-400)"
        rm -rf $D
    '
    rm -rf $W /tmp/demo-$id.json
done
