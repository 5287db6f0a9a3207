#!/bin/bash
# seed.sh ID [CHECK...]: confirm a planted bug in a private copy of /repo bound over /repo
# in a mount namespace: builds, stable tests, demo with and without; then the given checks
id=$1; shift
S=/verif/seeded/$id
C=/tmp/seedrepo
[ -d $C ] || { cp -a /repo $C; }
exec 9>/tmp/seed.lock; flock 9
git -C $C fetch -q /repo HEAD && git -C $C reset -q --hard FETCH_HEAD
D=/tmp/seed_demo_$id; rm -rf /tmp/seed_demo_$id; mkdir -p $D; cp $S/* $D; rm -f $D/patch.diff $D/meta.json
cat > $D.in <<EOF
mount --bind $C /repo || exit 9
cd /repo
git checkout -q -- . ; git clean -qfd
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1 || { echo base build failed; exit 8; }
bash $D/demo.sh > $D/base.log 2>&1; echo "demo on base: \$? \$(tail -1 $D/base.log)"
git apply $S/patch.diff || { echo does not apply; exit 7; }
bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_b.log 2>&1; tail -2 /tmp/seed_b.log
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_t.json'))
s=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b
m=[x for x in s if x not in t['passed']]
print('tests: %d passed, missing %s'%(len(t['passed']),m))
P
bash $D/demo.sh > $D/mut.log 2>&1; echo "demo on mutant: \$? \$(grep BROKEN $D/mut.log | head -3) \$(tail -1 $D/mut.log)"
for p in $*; do echo -n "check \$p: "; VT_TAG=seed_$id timeout 900 python3-vt /verif/run.py \$p > $D/\$p.log 2>&1; echo "\$? \$(grep -c VIOLATION $D/\$p.log) \$(grep VIOLATION $D/\$p.log | head -1)"; done
git checkout -q -- .
EOF
unshare -Urm bash $D.in
for p in $*; do rm -rf /verif/.out/$p.seed_$id; done
