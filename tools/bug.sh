#!/bin/bash
# bug.sh ID : confirm the planted bug seeded/ID in a scratch copy of /repo, then run its property's quick check on that copy
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; d=$here/seeded/$id
. /opt/vp/env.sh
s=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$s"' EXIT
cp -a /repo/. "$s"
cd "$s"
bash "$d/demo.sh" > "$s.clean" 2>&1; c=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test -json -p 1 -vet=off -count=1 -timeout 10m ./... > "$s.json" 2>/dev/null
missing=$(python3 - "$s.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
stable=set()
def walk(x):
    if isinstance(x,dict):
        for k in ('stable','stable_tests','tests','passed'):
            if k in x and isinstance(x[k],list): stable.update(x[k]); return
walk(base)
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add((e['Package'],e['Test']))
names=set(p+'::'+t for p,t in ok)|set(p+'/'+t for p,t in ok)|set(p+'.'+t for p,t in ok)|set(p+' '+t for p,t in ok)
names|=set(p.split('/')[-1]+'::'+t for p,t in ok)
m=[x for x in stable if x not in names]
print(len(stable),len(m),m[:3])
P
)
bash "$d/demo.sh" > "$s.bug" 2>&1; b=$?
echo "$id: demo clean=$c bug=$b; stable/missing: $missing"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
shift
for q in ${*:-$p}; do
  st=$(date +%s)
  out=$(cd "$here" && /tmp/symgo check "$q" quick -verif "${VERIFCOPY:-$here}" -repo "$s" 2>&1); rc=$?
  echo "$id: check $q exit=$rc ($(( $(date +%s)-st )) s) $(echo "$out" | grep -m2 -E 'VIOLATION|assert in|panic' | tr '\n' ' ')"
done
rm -f "$s.clean" "$s.json" "$s.bug"
