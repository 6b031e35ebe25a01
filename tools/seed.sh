#!/bin/bash
# seed.sh new <id>     : snapshot the working-tree change of /repo as seeded/<id>/patch.diff, then test it
# seed.sh <id> [chk..] : test an existing planted bug: demo clean, apply, build, suite, demo, check(s), undo
set -u
if [ "$1" = new ]; then shift; id=$1; mkdir -p /verif/seeded/$id; git -C /repo diff > /verif/seeded/$id/patch.diff; git -C /repo checkout -- .; fi
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
s=/tmp/seedrun.$$; mkdir -p $s; cp $d/* $s/; rm -f $s/patch.diff $s/meta.json
cd /repo
timeout 300 bash $s/demo.sh >/tmp/seed.demo0 2>&1; a=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.build 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
base=b.get('passed') or b.get('tests') or b.get('stable') or list(b.values())[0]
m=[t for t in base if t not in set(r['passed'])]
print("suite: passed",len(r['passed']),"missing",len(m),m[:5])
P
timeout 300 bash $s/demo.sh >/tmp/seed.demo1 2>&1; b=$?
echo "demo clean=$a patched=$b"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for p in ${@:-$prop}; do (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1 | tail -2 | cut -c1-300; ); done
git -C /repo checkout -- .
rm -rf "$s"
