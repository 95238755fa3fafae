#!/bin/bash
# trybug.sh ID...: demo on the clean tree, then with the patch: build, stable tests, demo, check
cd /repo || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/try.out 2>&1; a=$?
  [ $a = 0 ] || { echo "$id: demo fails on clean tree ($a)"; tail -3 /tmp/try.out; continue; }
  git apply $d/patch.diff || { echo "$id: no apply"; continue; }
  go build ./... >/tmp/try.out 2>&1 || { echo "$id: no build"; cat /tmp/try.out; git checkout -q -- .; continue; }
  bash $d/demo.sh >/tmp/try.out 2>&1; b=$?
  st=skip; [ -z "$NOSTABLE" ] && st=$(bash /verif/tools/stable.sh | head -1)
  r=skip; if [ -z "$NOCHECK" ]; then VERIF_SEED=${VERIF_SEED:-1} bash /verif/check.sh $prop quick >/tmp/try.chk 2>&1; r="rc=$? $(grep -m1 VIOLATION /tmp/try.chk)"; fi
  git checkout -q -- .
  echo "$id [$prop]: demo clean=$a patched=$b | $st | check $r"
done
git status --short
