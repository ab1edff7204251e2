#!/bin/bash
# try_seed.sh ID [demo|check|all]: the demo on the clean tree and the patched one, the property's check on the patched one
id=$1; what=${2:-all}; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
cp=$(mktemp -d /tmp/seed.XXXXXX); cp $d/demo.* $cp/
if [ $what != check ]; then (cd /repo && timeout 300 bash $cp/demo.sh >/tmp/seed-clean.log 2>&1); echo "$id demo clean: $?"; fi
git -C /repo apply $d/patch.diff || exit 2
if [ $what != check ]; then (cd /repo && timeout 300 bash $cp/demo.sh >/tmp/seed-bug.log 2>&1); echo "$id demo patched: $?"; fi
if [ $what != demo ]; then VERIF_SEED=1 VERIF_TIER=quick /verif/bin/check $prop 2>&1 | tail -4 | cut -c1-600; echo "$id check $prop: ${PIPESTATUS[0]}"; fi
git -C /repo checkout -q -- .
rm -rf "$cp"
