#!/bin/bash
# usage: seedtry.sh ID   confirms /verif/seeded/ID in a private copy of /repo (mounted over /repo in an own mount namespace):
# the patch applies, builds, the stable tests pass, demo.sh is 0 before and nonzero after.
ID=$1; D=/verif/seeded/$ID; W=/tmp/seed/$ID
rm -rf /tmp/seed/$ID; mkdir -p $W
if [ -n "$2" ]; then mkdir -p $W/repo/_build $W/ccache; cp -a /repo/.git /repo/dune $W/repo; cp -a /repo/_build/include $W/repo/_build
else cp -a /repo $W/repo; cp -a /opt/dune/ccache $W/ccache; fi; mkdir $W/demo; cp $D/* $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
unshare -m bash -c "
mount --bind $W/repo /repo; mount --bind $W/ccache /opt/dune/ccache
cd /repo; git checkout -q -- dune
bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo \"demo clean: \$?\"
git apply $D/patch.diff || { echo APPLY FAILED; exit 1; }
bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo \"demo patched: \$?\"
[ -n \"$2\" ] || { bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1; echo test rc \$?; }
"
[ -n "$2" ] || python3 - $W/out.json <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print("stable tests failing:",bad)
PY
tail -3 $W/demo1.log
rm -rf $W/repo $W/ccache
