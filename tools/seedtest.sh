#!/bin/bash
# seedtest.sh ID [nodemo]: demo on the clean tree and with the patch, then the property's check with the patch
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git checkout -q -- .
if [ "$2" != nodemo ]; then $d/demo.sh > /tmp/demo-clean.log 2>&1; a=$?; fi
git apply $d/patch.diff || exit 2
if [ "$2" != nodemo ]; then $d/demo.sh > /tmp/demo-patch.log 2>&1; b=$?; fi
python3 /verif/check.py $prop > /tmp/check-$id.log 2>&1; c=$?
git checkout -q -- .
echo "$id $prop demo clean=$a patched=$b check=$c $(grep -c VIOLATION /tmp/check-$id.log) violations; $(tail -1 /tmp/check-$id.log | cut -c1-150)"
