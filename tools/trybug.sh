#!/bin/bash
# tools/trybug.sh ID [check|tests|all] [PROPERTY...]
# Applies seeded/ID/patch.diff to a scratch copy of /repo mounted over /repo in a
# private mount namespace; runs demo (clean and patched), the stable tests and the check.
ID=$1; MODE=${2:-all}; shift; shift
PROPS="$*"
V=/verif
S=$(mktemp -d /var/tmp/bug-XXXXXX)
cp -a /repo "$S/repo"; mkdir "$S/verif"; 
(cd $V && tar cf - --exclude=./.git --exclude=./replays --exclude=./.cache/build . ) | tar xf - -C "$S/verif"
mkdir -p $S/verif/.cache $S/tmp
[ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
cat > "$S/run.sh" <<R
mount --bind $S/repo /repo; mount --bind $S/verif /verif
mkdir /dev/shm/x.\$\$ 2>/dev/null; mount -t tmpfs -o size=4g t /tmp
cp -a /var/tmp/bugsrc.$ID /tmp/demo
cd /repo
if [ $MODE != check ]; then
  bash /opt/vp/build.sh >/tmp/b0 2>&1 || { echo "$ID: CLEAN BUILD FAILED"; exit; }
  timeout 300 bash /tmp/demo/demo.sh >/tmp/d0 2>&1; echo "$ID: demo clean rc=\$?"; tail -3 /tmp/d0
fi
git apply /tmp/demo/patch.diff || { echo "$ID: patch does not apply"; exit; }
if [ $MODE != check ]; then
  bash /opt/vp/build.sh >/tmp/b1 2>&1 || { echo "$ID: BUILD FAILED"; tail -20 /tmp/b1; exit; }
  timeout 300 bash /tmp/demo/demo.sh >/tmp/d1 2>&1; echo "$ID: demo patched rc=\$?"; tail -3 /tmp/d1
fi
if [ $MODE != check ] && [ $MODE != demo ]; then
  bash /opt/vp/test.sh /tmp/out.json >/tmp/t1 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
st=b['stable']
print("$ID: tests missing:", [t for t in st if t not in o['passed']][:5])
P
fi
if [ $MODE != tests ] && [ $MODE != demo ]; then
  cd /verif
  for p in $PROPS; do
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py \$p >/tmp/c1 2>&1; echo "$ID: check \$p rc=\$? \$(grep -c '^VIOLATION' /tmp/c1)"; tail -3 /tmp/c1 | cut -c1-400
  done
fi
R
rm -rf "/var/tmp/bugsrc.$ID"; cp -a "$V/seeded/$ID" "/var/tmp/bugsrc.$ID"
unshare -Urm bash "$S/run.sh"
rm -rf "$S" "/var/tmp/bugsrc.$ID"
