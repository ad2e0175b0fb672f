#!/bin/bash
# seed.sh SEED [check...]: confirm a planted bug in a scratch copy mounted over /repo in a private
# namespace (the real /repo is never touched), then run the named checks against it.
SID=$1; shift
D=/verif/seeded/$SID
S=$(mktemp -d /tmp/seedrun.XXXXXX)
cp -a /repo "$S/repo"; cp -a "$D" "$S/demo"
export SID D S; CHECKS="$*"; export CHECKS
cat > "$S/go.sh" <<'G'
mount --bind "$S/repo" /repo || exit 9
cd /repo
bash /opt/vp/build.sh >"$S/b0.log" 2>&1 || { echo "base build failed"; exit 1; }
( timeout 300 bash "$S/demo/demo.sh" >"$S/d0.log" 2>&1 ); r0=$?
git apply "$D/patch.diff" || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >"$S/b1.log" 2>&1 || { echo "patched build failed"; tail -20 "$S/b1.log"; exit 1; }
( timeout 300 bash "$S/demo/demo.sh" >"$S/d1.log" 2>&1 ); r1=$?
bash /opt/vp/test.sh "$S/t.json" >/dev/null 2>&1
python3 - "$S/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
bl=b['stable']
miss=[x for x in bl if x not in t['passed']]
print('tests: %d of %d baseline pass%s' % (len(bl)-len(miss), len(bl), '' if not miss else ' MISSING '+str(miss[:6])))
P
echo "demo: base=$r0 patched=$r1"
[ $r0 = 0 ] || tail -5 "$S/d0.log"
[ $r1 != 0 ] || tail -5 "$S/d1.log"
for c in $CHECKS; do bash /verif/run.sh $c quick >"$S/c.log" 2>&1; r=$?; echo "check $c exit $r"; grep -m3 VIOLATION "$S/c.log"; tail -1 "$S/c.log"; done
G
unshare -m --propagation private bash "$S/go.sh"
rm -rf "$S"
