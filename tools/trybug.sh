#!/bin/bash
# trybug.sh ID...: for each planted bug, demo on the clean tree and with the patch, and the check with the patch.
. /opt/vp/env.sh
for b in "$@"; do
  d=/verif/seeded/$b; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
  bash $d/demo.sh >/tmp/demo.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$b: does not apply"; continue; }
  cargo build --offline -q -p autocxx-gen >/tmp/build.bug 2>&1 || echo "$b: BUILD FAILS"
  bash $d/demo.sh >/tmp/demo.bug 2>&1; x=$?
  k=-; if [ -z "$NOCHECK" ]; then bash -c "cd /verif && python3 checks/$(echo $p|tr P p).py quick" >/tmp/check.$b 2>&1; k=$?; fi
  git checkout -q -- .
  echo "$b ($p): demo clean=$c bug=$x  check with bug=$k $(grep -c ^VIOLATION /tmp/check.$b)"
done
