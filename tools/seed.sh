#!/bin/bash
# seed.sh ID [PROP...]: validates a planted bug and reports which checks see it. /repo must be clean.
# env: NOTEST=1 skips the repository's tests, NODEMO=1 the demonstration.
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/seed-$id-clean.log 2>&1; echo "demo on the clean tree: $?"; fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >/tmp/seed-$id-build.log 2>&1 || { echo "does not build"; exit 1; }
  bash /opt/vp/test.sh /tmp/seed-$id.json >/tmp/seed-$id-test.log 2>&1; tail -1 /tmp/seed-$id-test.log
fi
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/seed-$id-bug.log 2>&1; echo "demo with the bug: $?"; fi
for p in $props; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash /verif/check.sh $p >/tmp/seed-$id-$p.log 2>&1
  echo "$id: check $p exits $? $(grep -c '^VIOLATION' /tmp/seed-$id-$p.log) $(grep '^VIOLATION' /tmp/seed-$id-$p.log | head -3 | tr '\n' ' ')"
done
