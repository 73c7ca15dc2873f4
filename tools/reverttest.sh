#!/bin/bash
# tools/reverttest.sh: for each repaired defect, undoes its fix in a scratch copy and runs the check of its
# property, which has to report it. The minimal case goes to corpus/<property>/.
V=/verif; PY=/opt/stempy-venv/bin/python
W=/tmp/revert-wt; C=/tmp/revert-verif
export VERIF_BUILD_CACHE=/var/tmp/vpcache-seed
grep '^fixed:' $V/known_findings.txt | while read -r _ prop commit what; do
  id=${prop#property=}
  [ -n "$1" ] && [[ " $* " != *" $commit "* ]] && continue
  rm -rf "$W" "$C"; git clone -q /repo "$W" || exit 1
  if ! git -C "$W" -c user.name=a -c user.email=a@b revert -n "$commit" >/dev/null 2>&1; then
    echo "$id $commit CONFLICT ($what)"; continue
  fi
  mkdir "$C"; cp -a $V/run.py $V/vp $V/checks $V/harness $V/known_findings.txt "$C/"
  (cd "$C" && VERIF_REPO=$W timeout 900 $PY run.py "$id" >"$C/log" 2>&1); rc=$?
  echo "$id $commit rc=$rc ($what)"
  if [ $rc = 1 ]; then
    mkdir -p $V/corpus/$id
    r=$(grep -a -o 'replay=.*' "$C/log" | head -1 | cut -d= -f2)
    $PY - "$r" "$V/corpus/$id/$commit.json" <<'P'
import json, os, sys
r = json.load(open(sys.argv[1]))
s = json.dumps({'sub': r['sub'], 'case': r['case']}) if 'sub' in r else None
if s and len(s) < 50000:
    open(sys.argv[2], 'w').write(s + '\n')
else:
    print('no corpus case', list(r), s and len(s))
P
  fi
done
rm -rf "$W" "$C"
