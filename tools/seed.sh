#!/bin/bash
# tools/seed.sh <id> <property> "<needs>" "<breaks>": records the edit in the scratch copy /tmp/seed/repo
# as seeded/<id> (demo.go is expected there already) after confirming it.
id=$1; S=/verif/seeded/$id; K=/verif/tools/demokit
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=
cd /tmp/seed/repo || exit 2
[ -n "$(git diff --name-only)" ] || { echo "no edit"; exit 2; }
gofmt -l $(git diff --name-only)
[ -f $S/demo.go ] || { echo no demo.go; exit 2; }
cp $K/kit.go $K/act/act.go $S/
[ -f $S/demo.sh ] || cp $K/demo.sh $S/
git diff > $S/patch.diff
GOWORK=/tmp/seed/go.work go build ./... || exit 1
GOWORK=/tmp/seed/go.work go test -vet=off -count=1 -json $(GOWORK=/tmp/seed/go.work go list ./... ./activity/subflow/... | grep -v flow/instance$) > /tmp/seed/t.json
python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
bad=[]
for l in open('/tmp/seed/t.json'):
    d=json.loads(l)
    if d.get('Action')=='fail' and d.get('Test'): bad.append(d['Package']+'::'+d['Test'])
x=[t for t in bad if 'examples' not in t]
print('failing tests:',bad)
P
( cd /repo && bash $S/demo.sh ); a=$?
( cd /tmp/seed/repo && bash $S/demo.sh ); b=$?
echo "demo: clean=$a patched=$b"
[ $a = 0 ] && [ $b != 0 ] || exit 1
python3 - "$@" > $S/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git checkout -q -- .
( cd /repo && git apply --check $S/patch.diff ) || exit 1
echo "OK $id"
