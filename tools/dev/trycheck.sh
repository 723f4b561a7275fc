#!/bin/bash
# trycheck.sh SEED: run the property's check with the patch on /repo
cd /verif
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
timeout 900 python3 tools/check.py ${2:-$p} 2>&1 | grep -v "^  " | cut -c1-220 | tail -${3:-7}
git -C /repo checkout -- .
