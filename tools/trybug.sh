#!/bin/bash
# trybug.sh ID [SLOT]: development aid. Confirms a planted bug in a scratch copy of /repo that is mounted over /repo in a private
# mount namespace: builds, passes the stable tests, its demo fails with the patch and passes without; then runs the property's check.
ID=${1:?}; SLOT=${2:-1}
W=/tmp/sc$SLOT
[ -d "$W" ] || { mkdir -p "$W"; cp -a /repo/. "$W"/; }
git -C "$W" checkout -q -- . ; git -C "$W" fetch -q /repo HEAD && git -C "$W" reset -q --hard FETCH_HEAD
export ID SLOT
unshare -Urm bash -c '
mount --bind /tmp/sc$SLOT /repo && cd /repo || exit 9
B=/verif/seeded/$ID; L=/tmp/trybug-$ID.log; : > $L
git config --global --add safe.directory /repo 2>/dev/null
git checkout -q -- . ; git fetch -q . 2>/dev/null
git apply $B/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
touch -c $(git diff --name-only)
bash /opt/vp/build.sh >>$L 2>&1 || { echo "$ID: BUILD FAILS"; tail -5 $L; git checkout -q -- .; exit 1; }
timeout 300 bash $B/demo.sh >>$L 2>&1; d=$?
echo "$ID: demo with the patch: exit $d (want nonzero)"
P=$(python3 -c "import json;print(json.load(open(\"$B/meta.json\"))[\"property\"])")
(cd /verif && timeout 900 python3 lib/check.py $P quick) >/tmp/trybug-$ID.check 2>&1; echo "$ID: check $P exit $? $(grep -c VIOLATION /tmp/trybug-$ID.check) $(grep "^[a-z].*:[0-9]*: in" /tmp/trybug-$ID.check | head -2 | cut -c1-200)"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/trybug-$ID.json >>$L 2>&1
python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/trybug-$ID.json"))
st=b.get("passed") or b.get("tests") or b.get("stable") or b
miss=sorted(set(st)-set(r["passed"]))
print("$ID: stable tests lost:", len(miss), miss[:5])
PY
fi
git checkout -q -- . ; touch -c $(cd /repo; git apply --numstat $B/patch.diff | cut -f3)
bash /opt/vp/build.sh >>$L 2>&1
timeout 300 bash $B/demo.sh >>$L 2>&1; echo "$ID: demo without the patch: exit $? (want 0)"
'
