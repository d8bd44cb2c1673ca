#!/bin/bash
# plant.sh ID: confirms the planted bug seeded/ID in scratch copies of /repo: it applies, builds, passes the
# stable tests, and its demonstration fails with it and passes without it. "check" as $2 also runs the check.
. /opt/vp/env.sh
id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/plant.XXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/r"; mkdir "$w/d"; cp "$s"/* "$w/d"; rm -f "$w"/d/*.diff "$w/d/meta.json"
cd "$w/r" || exit 1
git status --short | grep -q . && { echo "/repo is not clean"; exit 1; }
bash "$w/d/demo.sh" >"$w/o1" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -20 "$w/o1"; exit 1; }
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
mkdir "$w/t"
TMPDIR="$w/t" go test -vet=off -count=1 -p 1 ./... >"$w/o3" 2>&1 || { echo "$id: tests fail"; grep -E '^(---|FAIL|panic)' "$w/o3"|head; exit 1; }
bash "$w/d/demo.sh" >"$w/o2" 2>&1 && { echo "$id: demo passes with the patch"; exit 1; }
echo "$id: ok ($(grep -m1 -E '_test.go|panic' "$w/o2"))"
if [ "$2" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd /verif; VERIF_REPO_DIR="$w/r" ./check.sh $p quick 2>&1 | grep -E 'VIOLATION|KNOWN' || echo "$id: MISSED by $p"
  VERIF_REPO_DIR= ; cat replay/$p.txt 2>/dev/null | head -${3:-6}
fi
