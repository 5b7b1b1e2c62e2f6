#!/bin/bash
# newseed.sh ID PROP "needs" "breaks" < demo.go
# Takes the uncommitted change in /repo as a planted bug, confirms it and undoes it.
. /verif/env.sh
id=$1; prop=$2; d=/verif/seeded/$id
trap 'git -C /repo checkout -q -- .' EXIT
mkdir -p $d; cat > $d/demo.go
git -C /repo diff > $d/patch.diff
python3 - "$@" <<'PY'
import json,sys
_,i,p,n,b=sys.argv
json.dump(dict(property=p,needs=n,what_it_breaks=b),open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
PY
cat > $d/demo.sh <<'SH'
#!/bin/bash
# cwd: the repository; exit 0 when the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS= GOTOOLCHAIN=local GOPROXY=off
exec go run "$d/demo.go"
SH
chmod +x $d/demo.sh
cd /repo
r=$(bash /verif/tools/repotest.sh); echo "tests: $r" | head -5
bash $d/demo.sh >/tmp/demo.out 2>&1; dr=$?; tail -3 /tmp/demo.out
/verif/check.sh $prop > /tmp/seedcheck.out 2>&1; cr=$?
git checkout -q -- .
bash $d/demo.sh >/tmp/demo2.out 2>&1; d0=$?
[ $d0 != 0 ] && tail -3 /tmp/demo2.out
echo "SEED $id prop=$prop demo(bug)=$dr demo(clean)=$d0 check=$cr $(grep -c VIOLATION /tmp/seedcheck.out)"
grep -m3 VIOLATION -B1 /tmp/seedcheck.out | cut -c1-300
