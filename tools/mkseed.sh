#!/bin/bash
# mkseed.sh ID PROPERTY FILE 'perl -0pe expression' NEEDS BREAKS < main.go : plants a bug in a copy, confirms it, keeps it
set -u
id=$1 prop=$2 file=$3 expr=$4 needs=$5 breaks=$6
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX)
mkdir -p "$d"; cat > "$d/main.go.txt"
cat > "$d/demo.sh" <<'X'
#!/bin/bash
# runs the program beside this file as part of the module in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here/main.go.txt" "$t/main.go"
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$t" > "$t/overlay.json"
go run -overlay "$t/overlay.json" ./zz_demo
X
chmod +x "$d/demo.sh"
cp -a /repo "$w/repo"; cd "$w/repo" && git checkout -q -- .
bash "$d/demo.sh" >/tmp/seed.out 2>&1; a=$?
for f in ${file//,/ }; do perl -0pi -e "$expr" json/$f; done
git diff > "$d/patch.diff"
go build ./... || echo BUILD FAILS
go test -vet=off -count=1 ./... > /tmp/seed.test 2>&1; t=$?
bash "$d/demo.sh" >/tmp/seed.out2 2>&1; b=$?
git diff --stat | tail -1
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
echo "seed $id: demo unchanged=$a (want 0), tests=$t (want 0), demo changed=$b (want nonzero)"; [ $a = 0 ] || head -5 /tmp/seed.out; [ $b = 0 ] || head -3 /tmp/seed.out2
cd /; rm -rf "$w"
