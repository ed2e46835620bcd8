#!/bin/bash
# seedtest.sh ID... : applies each planted bug to a scratch copy of /repo (mounted
# over /repo in a private mount namespace), builds, runs the tests and the demo.
S=/tmp/seedrepo
for id in "$@"; do
    D=/verif/seeded/$id
    mkdir -p $S && rsync -a --delete /repo/ $S/ 2>/dev/null || { rm -rf /tmp/seedrepo; cp -a /repo $S; }
    (cd $S && git apply $D/patch.diff) || { echo "$id: patch does not apply"; continue; }
    rm -rf /tmp/seedplant; mkdir -p /tmp/seedplant; cp $D/* /tmp/seedplant; rm -f /tmp/seedplant/patch.diff /tmp/seedplant/meta.json
    (cd /repo && timeout 300 bash /tmp/seedplant/demo.sh >/tmp/seed-$id.orig 2>&1); o=$?
    unshare -Urm bash -c "mount --bind $S /repo && cd /repo && bash /opt/vp/build.sh >/tmp/seed-$id.build 2>&1; echo build \$? >/tmp/seed-$id.rc; (timeout 300 bash /tmp/seedplant/demo.sh >/tmp/seed-$id.demo 2>&1; echo demo \$? >>/tmp/seed-$id.rc); [ -n \"$NOTEST\" ] || bash /opt/vp/test.sh /tmp/seed-$id.json >/tmp/seed-$id.test 2>&1"
    echo "$id: demo on /repo: $o; with patch: $(tr '\n' ' ' < /tmp/seed-$id.rc)"
    [ -n "$NOTEST" ] || python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/seed-{sys.argv[1]}.json'))
base=set(b['passed'] if isinstance(b,dict) and 'passed' in b else b.get('stable', b.get('tests',[])))
print('  stable', len(base), 'now failing:', sorted(base-set(r['passed']))[:8])
P
done
