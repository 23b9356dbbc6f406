#!/bin/bash
# tryseed.sh ID [notest]: applies a planted bug to /repo, builds, runs the stable tests, its demo and its property's check; undoes it.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
(bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean: $?")
git apply $d/patch.diff || exit 1
if [ "$2" != notest ]; then bash /tmp/t.sh 2>&1 | tail -3; fi
(bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $?")
(cd /verif; python3 check.py $prop >/tmp/chk.log 2>&1; echo "check: $?"; tail -4 /tmp/chk.log | cut -c1-600)
git -C /repo checkout -- .
git -C /repo status --porcelain
