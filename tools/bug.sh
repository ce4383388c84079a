#!/bin/bash
# tools/bug.sh ID PROP "needs" "breaks" < python edit script (cwd = copy of /repo); main.go.txt must lie in seeded/ID
# Confirms that the change builds, passes the tests, and that the demo tells it apart; then keeps it.
set -eu
id=$1 prop=$2 needs=$3 breaks=$4
B=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$B"' EXIT
cp -a /repo "$B/r"; cd "$B/r"; git checkout -q -- .
cat > "$B/edit.py"; python3 "$B/edit.py"
S=/verif/seeded/$id; mkdir -p "$S"
git diff > "$S/patch.diff"; [ -s "$S/patch.diff" ]
cat > "$S/demo.sh" <<'D'
#!/bin/bash
# exit 0: the property holds; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp "$D/main.go.txt" "$W/main.go"
printf 'module demo\ngo 1.21\nrequire github.com/thedonutfactory/go-tfhe v0.0.0\nreplace github.com/thedonutfactory/go-tfhe => %s\n' "$R" > "$W/go.mod"
cd "$W" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o demo . && timeout 250 ./demo
D
chmod +x "$S/demo.sh"
P="$prop" N="$needs" W="$breaks" python3 -c 'import json,os;print(json.dumps({"property":os.environ["P"],"needs":os.environ["N"],"what_it_breaks":os.environ["W"]},indent=1))' > "$S/meta.json"
go build ./... && go vet ./... >/dev/null 2>&1 || { go build ./...; }
(cd /repo && bash "$S/demo.sh" >"$B/o" 2>&1) || { echo "$id: demo FAILS on unchanged tree"; tail -5 "$B/o"; exit 1; }
if bash "$S/demo.sh" >"$B/o" 2>&1; then echo "$id: demo passes WITH the bug"; exit 1; fi
echo "$id: demo says: $(tail -c 300 "$B/o" | head -3)"
if [ -z "${NOTEST:-}" ]; then
GOFLAGS=-mod=mod go test -json -vet=off -count=1 -timeout 10m ./... > "$B/go.json" 2>/dev/null || true
python3 - "$B/go.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
names=set(base["stable"])
st={}
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Test') and d['Action'] in('pass','fail','skip'): st[d['Package'].rstrip()+"/"+d['Test']]=d['Action']
bad=[k for k,v in st.items() if v!="pass" and k in names]
print('tests: %d pass, failing: %s'%(sum(v=='pass' for v in st.values()),bad[:6]))
P
fi
