#!/bin/bash
# tools/seed.sh ID [notests]: confirm a seeded bug (demo clean/patched, checks, stable tests) in /repo, then undo it.
HERE="$(cd "$(dirname "$0")/.." && pwd)"; D=$HERE/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "dirty /repo"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash "$D/demo.sh" >/tmp/seed.clean 2>&1; a=$?
git apply "$D/patch.diff" || exit 2
bash "$D/demo.sh" >/tmp/seed.bug 2>&1; b=$?
echo "$1: demo clean=$a bug=$b ($(tail -1 /tmp/seed.bug | cut -c1-150))"
out=$("$HERE/bin/check" "$P" quick 2>&1); c=$?
echo "$1: check $P rc=$c $(echo "$out" | grep -m1 VIOLATION)"
[ "$2" = notests ] || echo "$1: $(bash "$HERE/tools/stable.sh" | tail -1)"
