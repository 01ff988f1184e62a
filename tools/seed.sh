#!/bin/bash
# usage: seed.sh ID [PROP...] : takes the change in /tmp/seedrepo (a copy of /repo) as the seeded change ID; checks its demo, the build,
# the tests and the check of its property there.  The copies are shown as /repo in a mount namespace of their own; /repo is not touched.
set -e
if [ -z "$IN_NS" ]; then exec env IN_NS=1 unshare -Urm "$0" "$@"; fi
ID=$1; D=/verif/seeded/$ID; mkdir -p $D; shift
git -C /tmp/seedrepo diff > $D/patch.diff
test -s $D/patch.diff
if [ -f $D/demo.py ]; then cp /verif/tools/demo/sim.py /verif/tools/demo/demo.sh $D/; fi
cd /repo; bash $D/demo.sh && echo "clean: ok" || echo "CLEAN: DEMO FAILS"
git apply --check $D/patch.diff
mount --bind /tmp/seedrepo /repo; cd /repo
if bash $D/demo.sh; then echo "NOT DETECTED BY DEMO"; fi
bash /opt/vp/build.sh | tail -2; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/o.json'))['passed']
print('missing tests:', [x for x in b if x not in o])
P
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); cd /verif
for p in $P "$@"; do /usr/bin/time -f %es python3 check.py $p 2>&1 | tail -3 | cut -c1-300; done
