#!/bin/bash
# confirm.sh ID...: applies each planted bug in private copies of /repo and /verif and reports
# whether it builds, passes the tests, is shown by its demonstration and is caught by its check.
S=${SLOT:-/tmp/slot}
mkdir -p $S/repo $S/verif
rsync -a --delete /repo/ $S/repo/
rsync -a --delete --exclude seeded --exclude _work --exclude replays /verif/ $S/verif/
rsync -a --delete /verif/seeded/ $S/seeded/
export IDS="$*" S
unshare -Urm bash -c '
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
run() { (
 git -C /repo checkout -q -- .
 git -C /repo apply $S/seeded/$1/patch.diff
 p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))[\"property\"])" $S/seeded/$1/meta.json)
 bash /opt/vp/build.sh > $S/$1.build 2>&1 || { echo "$1 $p BUILD-FAILS"; exit; }
 if [ -z "$NOTEST" ]; then
 bash /opt/vp/test.sh $S/$1.json > $S/$1.test 2>&1 || true
 t=$(tail -1 $S/$1.test)
 bash $S/seeded/$1/demo.sh > $S/$1.demo 2>&1; d=$?
 fi
 cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p > $S/$1.check 2>&1; c=$?
 echo "$1 $p tests: $t demo: $d check: $c $(grep -c "VIOLATION property=$p" $S/$1.check) $(grep -o "held" $S/$1.check)"
 ) ; git -C /repo checkout -q -- . ; }
for i in $IDS; do set +e; run $i; done
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > $S/base.build 2>&1
for i in $IDS; do bash $S/seeded/$i/demo.sh > $S/$i.demo0 2>&1; echo "$i unchanged demo: $?"; done
fi
'
