#!/bin/bash
# seedtest.sh ID...: validates planted bugs in a private copy of /repo (bind-mounted in a private mount namespace) and
# runs the quick check of the property named by each.  Only used while developing; no check reads it.
for id in "$@"; do
unshare -m bash -c '
id=$1; d=/verif/seeded/$id; r=/tmp/seedrepo.$$; mkdir -p $r.tmp
cp -a /repo $r; mount --bind $r /repo; mkdir -p $r.tmp/demo; 
p=$(python3 -c "import json,sys;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
cp $d/* $r.tmp/demo/; rm -f $r.tmp/demo/patch.diff $r.tmp/demo/meta.json
bash /opt/vp/build.sh >$r.tmp/b0 2>&1 || echo "$id: base build failed"
cd /repo; timeout 300 bash $r.tmp/demo/demo.sh >$r.tmp/d0 2>&1; a=$?
git -C /repo apply $d/patch.diff || echo "$id: patch does not apply"
bash /opt/vp/build.sh >$r.tmp/b1 2>&1 || echo "$id: build failed: $(grep error: $r.tmp/b1 | head -3)"
timeout 300 bash $r.tmp/demo/demo.sh >$r.tmp/d1 2>&1; b=$?
t="(tests skipped)"; [ -n "$NOTEST" ] || t=$(bash /opt/vp/test.sh $r.tmp/o.json 2>&1 | tail -1)
cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 run_check.py $p >$r.tmp/c 2>&1; c=$?
echo "$id: demo clean=$a patched=$b; tests: $t; check $p exit=$c ($(( $(date +%s)-s )) s) $(grep -m1 VIOLATION $r.tmp/c) $(tail -1 $r.tmp/c | cut -c1-200)"
[ $a = 0 ] || head -5 $r.tmp/d0
umount /repo
/bin/rm -rf $r $r.tmp
' x $id
done
