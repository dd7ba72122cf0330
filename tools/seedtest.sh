#!/bin/bash
# validates planted bugs: builds, passes the tests, demo fails with and passes without the patch
# usage: seedtest.sh [-c] ID...   (-c: also run the property's check on the patched tree)
CHK=0; [ "$1" = -c ] && { CHK=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	S=$V/seeded/$id; D=$(mktemp -d /tmp/seed.XXXXXX)
	cp -a /repo $D/repo; mkdir $D/vp $D/demo
	for f in build.sh test.sh; do sed "s#/repo#$D/repo#g; s#/opt/vp/build.sh#$D/vp/build.sh#g" /opt/vp/$f > $D/vp/$f; done
	cp $S/* $D/demo/; rm -f $D/demo/*.diff $D/demo/meta.json
	res="$id:"
	(cd $D/repo && bash $D/vp/build.sh >/dev/null 2>&1; timeout 300 bash $D/demo/demo.sh > $D/d0 2>&1); r0=$?
	(cd $D/repo && git apply $S/patch.diff) || res="$res PATCH-DOES-NOT-APPLY"
	bash $D/vp/test.sh $D/o.json > $D/t.log 2>&1
	t=$(python3 -c "import json;o=json.load(open('$D/o.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(len(set(b['stable'])-set(o['passed'])))")
	(cd $D/repo && timeout 300 bash $D/demo/demo.sh > $D/d1 2>&1); r1=$?
	res="$res clean=$r0 patched=$r1 tests_missing=$t"
	if [ $r0 = 0 ] && [ $r1 != 0 ] && [ "$t" = 0 ]; then res="$res OK"; else res="$res BAD"; for q in d0 d1 t.log; do tail -n 5 $D/$q; done; fi
	echo "$res"
	if [ $CHK = 1 ]; then
		p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
		VERIF_REPO=$D/repo timeout 900 python3 $V/check.py $p quick | grep -v ^note | head -3
	fi
	rm -rf "$D"
done
