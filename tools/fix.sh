#!/bin/bash
# fix.sh "message": run the stable tests on /repo's tree, commit if they pass
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/w/out.json >/tmp/w/test.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/w/out.json'))
miss=b-set(o['passed']); print('missing',miss); sys.exit(bool(miss))
P
[ -n "$1" ] && git -C /repo commit -qam "$1"; git -C /repo status --short; git -C /repo log --oneline | head -1
