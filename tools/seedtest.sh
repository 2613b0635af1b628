#!/bin/bash
# seedtest.sh ID... : confirm planted bugs in a scratch copy of /repo (applies, original lines, tests pass, demo, check).
# The copy lies under /tmp and is removed at the end.
W=$(mktemp -d /tmp/seedXXXXXX); trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1
for id in "$@"; do
  S=/verif/seeded/$id
  rm -rf "$W/repo"; cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"
  rm -f "$W"/demo/*.diff "$W"/demo/meta.json
  cd "$W/repo" || exit 1
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  PYTHONPATH=$W/repo/src bash "$W/demo/demo.sh" >"$W/out0" 2>&1; d0=$?
  git apply "$S/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  orig=$(git diff -U0 -- src | grep -E '^-[^-]' | cut -c2- | while IFS= read -r l; do git grep -qF -- "$l" dd10ddb -- src && echo y || echo n; done | sort | uniq -c | tr '\n' ' ')
  PYTHONPATH=$W/repo/src bash "$W/demo/demo.sh" >"$W/out1" 2>&1; d1=$?
  PYTHONPATH=$W/repo/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$W/j.xml" >"$W/t.log" 2>&1
  /usr/bin/python3 /opt/vp/results.py "$W/r.json" junit:"$W/j.xml" >/dev/null
  t=$(python3 - "$W/r.json" <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('stable') or b.get('passed') or b.get('passing') or b
p=set(r.get('passed') or [])
print([x for x in base if x not in p][:3] or 'ok')
P
)
  if [ -z "$NOCHECK" ]; then
  timeout 900 env VERIF_REPO=$W/repo /opt/venv/bin/python /verif/run.py "$prop" >"$W/c.log" 2>&1; c=$?; fi
  echo "$id prop=$prop demo0=$d0 demo1=$d1 tests=$t orig=$orig check=$c $(grep -m1 VIOLATION "$W/c.log")"
  [ "$d0" = 0 ] || tail -3 "$W/out0"
  [ -n "$SHOW" ] && tail -3 "$W/out1"
  rm -rf "$W/demo"
done
