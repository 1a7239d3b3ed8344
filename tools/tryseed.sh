#!/bin/bash
# tryseed.sh ID [PROP]: run the property's quick check against a scratch copy of /repo with the planted bug
id=$1; d=/verif/seeded/$id
prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
W=$(mktemp -d /tmp/tryseedXXXX); trap 'rm -rf "$W"' EXIT
git clone -q /repo $W/repo && git -C $W/repo apply $d/patch.diff || exit 3
mkdir $W/verif; cp -a /verif/engine /verif/harness /verif/models /verif/bin /verif/check.sh /verif/known-findings.json $W/verif/ 2>/dev/null
cd $W/verif && VERIF_REPO=$W/repo VERIF_SEED=1 timeout 900 bash check.sh $prop quick > $W/out 2>&1; rc=$?
echo "$id $prop rc=$rc $(grep -c VIOLATION $W/out) violations"; [ $rc = 1 ] || tail -40 $W/out | cut -c1-300; [ -n "$V" ] && cut -c1-400 $W/out | tail -30; exit 0
