#!/bin/bash
# plant.sh ID: confirm a planted bug in a scratch copy: the patch applies and
# builds, the stable tests pass, and the demonstration tells the two apart.
#   plant.sh -r ID : also run the check of its property against the scratch copy
run=; [ "$1" = -r ] && { run=1; shift; }
id=$1
here=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$here/meta.json'))['property'])")
w=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
cd "$w/repo" || exit 3
git checkout -q -- . ; git clean -fdq
mkdir "$w/demo"; cp -a "$here"/. "$w/demo/"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
(bash "$w/demo/demo.sh" >"$w/d0" 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -20 "$w/d0"; exit 1; }
git apply "$here/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test -vet=off -count=1 -json ./... >"$w/t.json" 2>/dev/null
python3 - "$w/t.json" <<'P' || { echo "$id: stable tests fail"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable'])
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
f=sorted(st-ok)
if f: print(f[:5]); sys.exit(1)
P
if (timeout 280 bash "$w/demo/demo.sh" >"$w/d1" 2>&1); then echo "$id: demo passes with the patch"; exit 1; fi
echo "$id ($prop): confirmed; demo: $(grep -v '^exit status' "$w/d1" | tail -1 | cut -c1-150)"
if [ -n "$run" ]; then
	cp -a /verif/. "$w/verif" 2>/dev/null || { mkdir "$w/verif"; cp -a /verif/. "$w/verif/"; }
	cd "$w/verif" && rm -rf "$w/verif/seeded" "$w/verif/replays"
	s=$(date +%s)
	VERIF_REPO="$w/repo" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh "$prop" >"$w/out" 2>"$w/err"
	rc=$?
	echo "$id: check exit $rc in $(( $(date +%s) - s )) s; $(grep -a -e '^VIOLATION' -e '^replay' -e '^minimised' "$w/out" | cut -c1-220 | tr '\n' '|')"
	[ $rc = 1 ] || tail -5 "$w/err" "$w/out"
fi
