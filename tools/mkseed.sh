#!/bin/bash
# tools/mkseed.sh ID PROP WORKTREE "needs" "what it breaks": record the worktree's diff as a seeded bug,
# after confirming it: builds, passes the stable tests, demo passes without and fails with it.
# The demo is WORKTREE/demo.go.txt (package main) and/or WORKTREE/inpkg.go.txt (package ecore).
set -e
trap '[ $? = 0 ] || { rm -rf /verif/seeded/$id; echo "$id: NOT KEPT"; }' EXIT
id=$1 prop=$2 wt=$3
d=/verif/seeded/$id
mkdir -p "$d"
git -C "$wt" diff -- ecore > "$d/patch.diff"
for f in demo inpkg; do [ -f "$wt/$f.go.txt" ] && cp "$wt/$f.go.txt" "$d/"; done
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# exits 0 if the behaviour is as specified, 1 otherwise
d=$(cd "$(dirname "$0")" && pwd)
for g in /opt/veriftools/go1.23.12 /opt/veriftools/go1.24.13 /usr/local/go; do
  if [ -x "$g/bin/go" ]; then PATH="$g/bin:$PATH"; break; fi
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOENV=off GOFLAGS="-mod=mod -buildvcs=false"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r="\"$PWD/zzdemo/main.go\": \"$d/demo.go.txt\""
[ -f "$d/inpkg.go.txt" ] && r="$r, \"$PWD/ecore/zz_demo.go\": \"$d/inpkg.go.txt\""
echo "{\"Replace\": {$r}}" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 2
cd "$t" && timeout 60 ./demo
D
chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
s=/tmp/seedcheck; mkdir -p /tmp/seedcheck
cd /repo && bash "$d/demo.sh" >/tmp/seedcheck/o1 2>&1 || { echo "$id: demo fails on the unchanged tree"; cat /tmp/seedcheck/o1; exit 1; }
cd "$wt" && if bash "$d/demo.sh" >/tmp/seedcheck/o2 2>&1; then echo "$id: demo passes with the change"; exit 1; elif [ $? = 2 ]; then echo "$id: demo does not build"; cat /tmp/seedcheck/o2; exit 1; fi
grep -q 'declared and not used\|undefined:' /tmp/seedcheck/o2 && { cat /tmp/seedcheck/o2; exit 1; }
(
. /opt/vp/env.sh; cd "$wt"
pkgs=$(packages); export TMPDIR=/tmp/seedcheck
cd "$wt"; rm -f ecore/testdata/*.result.*
go test -json -vet=off -count=1 -timeout 10m -skip '^TestSQLEncoder_' $pkgs > /tmp/seedcheck/log 2>/dev/null || true
python3 /opt/vp/results.py /tmp/seedcheck/res.json gojson:/tmp/seedcheck/log >/dev/null
python3 - <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seedcheck/res.json'))['passed'])
m=st-p
if m: print("stable tests broken:",sorted(m)[:8]); sys.exit(1)
P
)
echo "$id: demo ok: $(tail -1 /tmp/seedcheck/o2)"
