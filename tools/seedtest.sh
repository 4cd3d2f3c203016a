#!/bin/bash
# seedtest.sh ID [PROPERTY...]: confirm a planted bug and run checks against it.
# With no property the one of its meta.json is checked.  /repo is restored afterwards.
id=$1; shift
d=/verif/seeded/$id
props="$*"
[ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
t=$(mktemp -d /tmp/seed.XXXXXX)
cp -a "$d" "$t/x"
trap 'git -C /repo checkout -q -- . ; rm -rf "$t"' EXIT
bash /opt/vp/build.sh || exit 1
bash "$t/x/demo.sh" >"$t/out" 2>&1; c0=$?
git apply "$d/patch.diff" || exit 1
bash /opt/vp/build.sh || { echo "$id: does not build"; exit 1; }
bash /opt/vp/test.sh "$t/o.json" >/dev/null 2>&1
miss=$(python3 - "$t/o.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1])).get('passed',[]))
print(' '.join(sorted(b-p)))
P
)
bash "$t/x/demo.sh" >"$t/out1" 2>&1; c1=$?
echo "$id: demo clean=$c0 patched=$c1 tests-broken=[$miss]"
[ $c0 = 0 ] || head -c 600 "$t/out"
[ $c1 != 0 ] || head -c 600 "$t/out1"
for p in $props; do
  (cd /verif && ./check $p >"$t/c" 2>"$t/e"); c=$?
  echo "$id: check $p exit=$c $(grep -c '^VIOLATION' "$t/c") violations"
  [ $c = 2 ] && tail -5 "$t/e"
done
