#!/bin/bash
# try.sh ID [check]: the demonstration passes on /repo as it is, fails with the patch, the tests pass, and what the check says
d=/verif/seeded/$1
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
bash $d/demo.sh > /tmp/demo.clean 2>&1; a=$?
git apply $d/patch.diff || exit 8
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh > /tmp/demo.bug 2>&1; b=$?
fails=-
if [ "$3" != notest ]; then
bash /opt/vp/test.sh /tmp/seedt.json > /tmp/seedt.log 2>&1
fails=$(grep -o '"failed.*' /tmp/seedt.json)
fi
echo "$1: demo clean=$a bug=$b tests $fails :: $(tail -1 /tmp/demo.bug)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" = check ]; then
  cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 run.py check $p quick > /tmp/seed.$1.out 2>&1; c=$?
  echo "   check $p -> $c $(($(date +%s)-s))s $(grep VIOLATION /tmp/seed.$1.out | head -2)"
fi
