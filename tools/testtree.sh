#!/bin/bash
# tools/testtree.sh DIR: build and stable tests of the tree DIR, bind-mounted on /repo
w=/tmp/testtree.$$; mkdir -p $w; cp -a --no-target-directory /repo $w/repo 2>/dev/null; (cd $w/repo && git fetch -q $1 HEAD && git checkout -q FETCH_HEAD)
unshare -Urm bash -c "
mount --bind $w/repo /repo
bash /opt/vp/build.sh > $w/build.log 2>&1 || { echo 'BUILD FAILS'; tail -20 $w/build.log; exit; }
bash /opt/vp/test.sh $w/t.json > $w/test.log 2>&1
python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('$w/t.json'))
bad=[x for x in b if x not in t['passed']]
print('stable tests failing: %d %s'%(len(bad),bad[:6]))\""
rm -rf $w
