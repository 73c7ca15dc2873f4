#!/bin/bash
# tools/seedtest.sh <id> [check ...]: tries a planted bug in a scratch copy of /repo.
# Prints whether the demo and the stable tests behave, and what the checks say.
id=$1; shift
V=/verif; S=$V/seeded/$id
W=$(mktemp -d /tmp/seed-XXXXXX); trap 'rm -rf "$W"' EXIT
PY=/opt/stempy-venv/bin/python
(cd /repo && git archive HEAD) | tar x -C "$W"
export VERIF_REPO=$W VERIF_BUILD_CACHE=/var/tmp/vpcache-seed
demo() {
  out=$($PY -c "import sys; sys.path.insert(0,'$V')
from vp import build; print(build.build('/nonexistent','plain'))") || { echo BUILD FAILED; exit 9; }
  rm -rf "$W/_build"; mkdir -p "$W/_build/lib/stempy"
  ln -s $out/lib/stempy/*.so "$W/_build/lib/stempy/"
  for n in "$W"/python/stempy/*; do ln -s "$n" "$W/_build/lib/stempy/"; done
  D=$(mktemp -d "$W/demo-XXXX"); cp "$S"/* "$D"; rm -f "$D"/*.diff "$D"/meta.json
  (cd "$W" && timeout 300 bash "$D/demo.sh" >"$W/demo.log" 2>&1); echo "demo $1: rc=$?  $(tail -1 "$W/demo.log" | cut -c1-150)"
}
(cd "$W" && git init -q . && git apply --check "$S/patch.diff") || { echo PATCH DOES NOT APPLY; exit 8; }
# The same path for both, so that the cache is used for the clean tree
demo clean
(cd "$W" && git apply "$S/patch.diff")
demo patched
(cd "$W" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$W/_build/lib" timeout 250 $PY -m pytest -q -p no:cacheprovider --tb=line \
  tests/test_simple.py tests/test_image.py tests/test_sparse_array.py 2>&1 | grep -c passed >/dev/null; PYTHONPATH="$W/_build/lib" $PY -m pytest -q -p no:cacheprovider --tb=line -k 'test_com_sparse_parameters or test_radial_sum_sparse or test_simple or test_multiple_frames_per_scan_position' tests 2>&1 | tail -1)
rm -rf "$V/replays"
for c in ${@:-$($PY -c "import json; print(json.load(open('$S/meta.json'))['property'])")}; do
  t=$SECONDS
  (cd $V && $PY run.py $c >"$W/check.log" 2>&1); rc=$?
  echo "check $c: rc=$rc in $((SECONDS-t)) s  $(grep -a VIOLATION "$W/check.log" | head -1)"
  [ -n "$KEEP" ] && cp "$W/check.log" /tmp/check-$id-$c.log
done
exit 0
