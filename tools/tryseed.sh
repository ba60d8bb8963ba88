#!/bin/bash
# tryseed.sh ID...: runs each planted bug's check (or CHECK=Cxx) against a scratch copy carrying it
for id in "$@"; do
  w=$(mktemp -d /tmp/try.XXXXXX)
  git -C /repo archive HEAD | tar -x -C "$w"
  (cd "$w" && git apply --unsafe-paths /verif/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$id/patch.diff)
  prop=${CHECK:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  VERIF_REPO=$w VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /verif/run.sh $prop > /tmp/try.$id.log 2>&1
  rc=$?
  echo "$id $prop rc=$rc $(grep -c '^VIOLATION' /tmp/try.$id.log) $(grep -v -e '^VIOL' /tmp/try.$id.log | head -1 | cut -c1-150)"
  rm -rf "$w"
done
