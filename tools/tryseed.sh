#!/bin/bash
# tryseed.sh ID [nostable]: checks a planted bug: demo clean/patched, stable tests, and the property's check
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $D/demo.sh >/tmp/demo_clean.log 2>&1; echo "demo clean: $?"
git apply --check $D/patch.diff && git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; echo "build: $?"
timeout 300 bash $D/demo.sh >/tmp/demo_patched.log 2>&1; echo "demo patched: $?"
[ -n "$2" ] || /verif/tools/stable.sh
cd /verif; S=$(date +%s)
timeout 900 ./run.sh $P quick >/tmp/seed_check.log 2>&1; R=$?
echo "check $P: $R ($(( $(date +%s)-S )) s)"; grep -m1 '^VIOLATION' /tmp/seed_check.log
