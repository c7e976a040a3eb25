#!/bin/bash
# bash tools/seed.sh ID [test] [PID...]: apply seeded/ID/patch.diff to a scratch copy of /repo, run its demonstration there and on /repo,
# with "test" the existing tests, and then the checks PID... (default: the property of meta.json) against the copy.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/vf-seed-$ID
rm -rf "/tmp/vf-seed-$ID"
mkdir -p "$W" && cp -a /repo/. "$W/"
cd "$W" || exit 2
git checkout -q -- . && git apply "$V/seeded/$ID/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "/tmp/vf-seed-$ID"; exit 2; }
(cd /repo && bash "$V/seeded/$ID/demo.sh" >/tmp/vf-demo-$ID.0 2>&1); A=$?
(cd "$W" && bash "$V/seeded/$ID/demo.sh" >/tmp/vf-demo-$ID.1 2>&1); B=$?
echo "$ID: demo unchanged=$A patched=$B"
if [ "$1" = test ]; then
  shift
  export OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
  find "$W" -name __pycache__ -prune -exec rm -rf {} +
  HYPOTHESIS_STORAGE_DIRECTORY=$W/.hyp PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 timeout 840 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --runslow --hypothesis-profile=dev --hypothesis-seed=3 --timeout=180 2>&1 | tail -4
fi
PIDS="$*"; [ -z "$PIDS" ] && PIDS=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
cd "$V"
for p in $PIDS; do
  echo "--- $p"; VF_REPO=$W bash check.sh $p 2>&1 | grep -v KNOWN | cut -c1-220 | tail -4
done
rm -rf "/tmp/vf-seed-$ID"
