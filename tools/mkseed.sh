#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": take the diff of the scratch tree /tmp/wt against /repo's HEAD as planted bug ID
# (demo.py is expected in /verif/seeded/ID/ already), verify it, and reset the scratch tree
set -e
D=/verif/seeded/$1
mkdir -p $D
cp /verif/tools/seed/demolib.py /verif/tools/seed/demo.sh $D/
(cd /verif && python3 - <<P
import zipfile,os
z=zipfile.ZipFile('$D/sim.zip','w',zipfile.ZIP_DEFLATED)
for f in sorted(os.listdir('sim')):
    if f.endswith('.py') and f not in ('runner.py',):
        zi=zipfile.ZipInfo('sim/'+f,(2026,1,1,0,0,0)); zi.compress_type=zipfile.ZIP_DEFLATED
        z.writestr(zi,open('sim/'+f).read())
z.close()
P
)
git -C /tmp/wt diff > $D/patch.diff.new
if [ -s $D/patch.diff.new ]; then mv $D/patch.diff.new $D/patch.diff; else rm $D/patch.diff.new; fi
[ -n "$2" ] && python3 - "$2" "$3" "$4" > $D/meta.json <<'P'
import json,sys
print(json.dumps({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},indent=1))
P
git -C /tmp/wt checkout -q -- .
cd /tmp/wt
set +e
bash $D/demo.sh > /tmp/demo.clean 2>&1; r0=$?
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash $D/demo.sh > /tmp/demo.bug 2>&1; r1=$?
echo "demo clean=$r0 bug=$r1"
grep FAIL /tmp/demo.clean; grep -E "FAIL|Error" /tmp/demo.bug | cut -c1-300 | head -5
[ $r0 = 0 ] && [ $r1 != 0 ] || echo "*** DEMO NOT DISCRIMINATING"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$P" ]; then (cd /verif; VERIF_SEED=1 VERIF_REPO=/tmp/wt ./run.py ${CHK:-$P} --noevidence $ARGS 2>&1 | grep -E "^VIOL|^C[0-9]|violation|error" | cut -c1-220 | tail -4; echo "check rc ${PIPESTATUS[0]}"); fi
git -C /tmp/wt checkout -q -- .
