#!/bin/bash
# Copies yew from the registry (the version /repo locks) and ties its browser
# side to the models: property access on nodes goes to the DOM model, delegated
# event listeners (no component here listens to DOM events) are left out, and
# tasks go to a queue that the harness drains, as the browser's micro-task queue.
set -euo pipefail
cd "$(dirname "$0")"
SRC=$(cargo metadata --offline --format-version 1 --filter-platform x86_64-unknown-linux-gnu --manifest-path ../ssr/Cargo.toml |
    python3 -c 'import json,sys,os
print([os.path.dirname(p["manifest_path"]) for p in json.load(sys.stdin)["packages"] if p["name"] == "yew"][0])')
if [ "$(cat yew/.from 2>/dev/null)" = "$SRC $(md5sum <prepare.py)" ]; then exit 0; fi
rm -rf yew
cp -r "$SRC" yew
chmod -R u+w yew
python3 prepare.py yew
echo "$SRC $(md5sum <prepare.py)" >yew/.from
