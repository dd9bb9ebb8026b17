#!/bin/bash
# seed.sh ID...: verifies planted bugs in a scratch copy (/tmp/seed): demo passes before, patch applies and builds, demo fails, stable tests pass; then runs the property's check on it.
S=/tmp/seed; mkdir -p $S
if [ ! -d $S/vp ]; then cp -r /opt/vp $S/vp; sed -i "s#=/repo#=$S/repo#" $S/vp/env.sh; sed -i "s#/opt/vp#$S/vp#g" $S/vp/*.sh; fi
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; rm -rf $S/repo/_build; fi
cd $S/repo; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd
bash $S/vp/build.sh >/dev/null 2>&1 || { echo "base build failed"; exit 2; }
for id in "$@"; do
  D=/verif/seeded/$id; T=$(mktemp -d /tmp/seed/d.XXXX); cp -r $D/. $T/; rm -f $T/*.diff $T/meta.json
  cd $S/repo
  timeout 300 bash $T/demo.sh >$S/o1 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  bash $S/vp/build.sh >$S/b 2>&1 || { echo "$id: does not build"; tail -5 $S/b; git checkout -q .; continue; }
  timeout 300 bash $T/demo.sh >$S/o2 2>&1; b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then bash $S/vp/test.sh $S/t.json >/dev/null 2>&1; t=$(python3 /verif/tools/cmp.py $S/t.json | cut -c1-300); fi
  git checkout -q .
  bash $S/vp/build.sh >/dev/null 2>&1
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff
  (cd /verif; VERIF_TIER=quick timeout 900 python3 run.py $P >$S/c 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id: demo before=$a after=$b; tests: $t; check $P exit=$c $(grep -c '^VIOLATION' $S/c) violations"
  [ $a = 0 ] || tail -3 $S/o1
  rm -rf "$T"
done
