#!/bin/bash
# newbug.sh ID: turns the uncommitted change in /repo into seeded/ID/patch.diff, runs demo.sh with and without it, undoes it.
id=$1; d=/verif/seeded/$id; mkdir -p $d
cd /repo || exit 1
git diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
T=$(mktemp -d /tmp/demo.XXXXXX); cp -r $d/. $T/; rm -f $T/patch.diff $T/meta.json
bash /opt/vp/test.sh /tmp/w/t.json > /tmp/w/t.log 2>&1; grep -c PASS /tmp/w/t.log
timeout 300 bash $T/demo.sh > /tmp/w/demo1.log 2>&1; a=$?
if [ -n "$2" ]; then (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 checks/$2.py > /tmp/w/chk.log 2>&1; echo "check $2: $?"; grep -m2 -A1 VIOLATION /tmp/w/chk.log | cut -c1-300; tail -1 /tmp/w/chk.log|cut -c1-300); fi
git checkout -q -- . 
bash /opt/vp/build.sh > /tmp/w/t.log 2>&1
timeout 300 bash $T/demo.sh > /tmp/w/demo0.log 2>&1; b=$?
echo "demo with patch: $a, without: $b"; rm -rf "$T"
