#!/bin/bash
# mkseed.sh ID PROPERTY DIR: DIR holds edit.py (edits the files of the copy in cwd) and demo.py and meta (needs / breaks lines)
# Builds /verif/seeded/ID and confirms it: stable tests pass, the demo passes without and fails with the change.
set -e
id=$1 prop=$2 dir=$3
out=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX)
git -C /repo worktree prune
cp -a /repo "$w/repo"
cd "$w/repo"
git checkout -q -- .
rm -rf "$out"; mkdir -p "$out"
cp -r /verif/tools/seedkit/. "$out/"
rm -rf "$out/__pycache__"
cp "$dir/demo.py" "$out/demo.py"
bash "$out/demo.sh" > "$w/clean.log" 2>&1 || { echo "$id: demo fails on the clean tree"; tail -20 "$w/clean.log"; rm -rf "$w" "$out"; exit 1; }
/opt/venv/bin/python "$dir/edit.py"
git diff > "$out/patch.diff"
[ -s "$out/patch.diff" ] || { echo "$id: empty patch"; rm -rf "$w" "$out"; exit 1; }
if bash "$out/demo.sh" > "$w/bug.log" 2>&1; then echo "$id: demo passes with the change"; rm -rf "$w" "$out"; exit 1; fi
tail -1 "$w/bug.log"
( . /opt/vp/env.sh; export PYTHONPATH=$out/stubs:$w/repo/ros_bt_py:$PYTHONPATH; cd ros_bt_py; /opt/venv/bin/python /verif/tools/pt.py -q -p no:cacheprovider tests/*.py 2>&1 | tail -1 ) || true
/opt/venv/bin/python - "$prop" "$dir/meta" > "$out/meta.json" <<'P'
import json, sys
l = open(sys.argv[2]).read().strip().split("\n")
print(json.dumps({"property": sys.argv[1], "needs": l[0], "what_it_breaks": l[1]}, indent=1))
P
find "$out" -name __pycache__ -prune -exec rm -rf {} +
rm -rf "$w"
