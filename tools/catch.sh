#!/bin/bash
# tools/catch.sh ID...: runs the check of the planted bug's property on a scratch worktree with the bug
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    sd=$here/seeded/$id; [ -d "$sd" ] || sd=$here/planted/$id
    w=/tmp/catch-$id; rm -rf "$w"
    mkdir -p "$w"; git -C /repo archive HEAD | tar -x -C "$w"
    (cd "$w" && git init -q . && git apply "$sd/patch.diff")
    prop=${PROP:-$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")}
    out=$(unshare -Urm bash -c "mount --bind $w /repo; cd $here; EVID=/tmp timeout 900 python3 check.py $prop" 2>&1); c=$?
    echo "== $id $prop exit $c"; echo "$out" | grep -E "VIOLATION|FAILED|ERROR|held" | head -5
    [ -n "${VERBOSE:-}" ] && echo "$out" | head -40
    rm -rf "$w"
done
