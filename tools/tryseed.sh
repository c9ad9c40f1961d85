#!/bin/bash
# tryseed.sh ID [--tests] [--nocheck]: try one planted bug in a private copy of /repo (bind-mounted over /repo in a
# mount namespace of its own; the real /repo is not touched): demo on the clean copy, patch, build, demo, check, tests.
ID=$1; shift; T=0; C=1; for a in "$@"; do [ $a = --tests ] && T=1; [ $a = --nocheck ] && C=0; done
W=${WT:-/tmp/wt_$ID}; S=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p $W; rsync -a --delete /repo/ $W/; git -C $W checkout -q -- .
D=$(mktemp -d); cp $S/seeded/$ID/* $D/; rm -f $D/*.diff $D/meta.json
P=$(python3 -c "import json;print(json.load(open('$S/seeded/$ID/meta.json'))['property'])")
export W D S ID T C P
unshare -Urm bash -c '
mount --bind $W /repo; cd /repo
[ -n "$SKIPCLEAN" ] || { bash /opt/vp/build.sh >/dev/null 2>&1 || echo "clean build FAILED"
( bash $D/demo.sh >$D/clean.log 2>&1; echo "$ID clean demo rc=$? (want 0)"; tail -3 $D/clean.log ); }
git apply $S/seeded/$ID/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$D/b.log 2>&1 || { echo "patched build FAILED"; tail -20 $D/b.log; exit 1; }
( time timeout 300 bash $D/demo.sh >$D/bug.log 2>&1; echo "$ID patched demo rc=$? (want nonzero)"; tail -3 $D/bug.log ) 2>&1 | grep -v "^user\|^sys\|^$"
if [ $T = 1 ]; then bash /opt/vp/test.sh $D/t.json >/dev/null 2>&1; python3 -c "
import json;s=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);p=set(json.load(open(\"$D/t.json\"))[\"passed\"]);print(\"$ID stable tests failing:\",sorted(s-p))"; fi
'
if [ $C = 1 ]; then ( cd $S; time VP_REPO=$W VP_BUILD=${W}_b VERIF_SEED=1 VP_EVID=$D python3 vp/run.py $P quick > $D/c.log 2>&1; echo "$ID check rc=$? (want 1)"; egrep "^VIOL|^NO-|^OK" $D/c.log | cut -c1-220 | head -4 ) 2>&1 | grep -v "^user\|^sys\|^$"; fi
rm -rf "$D" "$W" "${W}_b"
