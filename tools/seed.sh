#!/bin/bash
# seed.sh ID: takes the change in /repo's working tree as planted bug ID, confirms it and undoes it.
# The folder seeded/ID must already hold main.rs (or demo.sh) and meta.json.
id=$1; d=/verif/seeded/$id
[ -f $d/demo.sh ] || cp /verif/tools/demo_template.sh $d/demo.sh
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
export DEMO_KEEP=1
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_test.json) > /tmp/seed_build.log 2>&1 || { tail -20 /tmp/seed_build.log; echo "$id BUILD FAILS"; git -C /repo checkout -- .; exit 1; }
python3 - <<'P' || { git -C /repo checkout -- .; echo "$id TESTS FAIL"; exit 1; }
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed_test.json'))['passed'])
m=b-p
print("failing:",sorted(m)) if m else None
raise SystemExit(bool(m))
P
(cd /repo && bash $d/demo.sh > /tmp/seed_demo1.log 2>&1); a=$?
git -C /repo checkout -- .
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1
(cd /repo && bash $d/demo.sh > /tmp/seed_demo2.log 2>&1); b=$?
echo "$id with patch: $a ($(tail -1 /tmp/seed_demo1.log | cut -c1-150)); without: $b"
[ $a -ne 0 ] && [ $b -eq 0 ] && echo "$id OK" || { echo "$id BAD DEMO"; tail -5 /tmp/seed_demo2.log; }
