#!/bin/bash
# tools/bugtest.sh ID...: takes planted bugs through build, stable tests and demo in scratch copies of /repo
# (bind-mounted on /repo in a mount namespace of its own).  NOTEST=1 skips the test suite.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1; sd=$here/seeded/$id; [ -d "$sd" ] || sd=$here/planted/$id; w=/tmp/bugtest-$id
    rm -rf "$w"; mkdir -p "$w"; cp -a /repo "$w/repo"; cp -a "$sd" "$w/seed"
    rm -f "$w/seed/patch.diff.x"
    unshare -Urm bash -c "
      mount --bind $w/repo /repo
      bash /opt/vp/build.sh > $w/build.log 2>&1
      cd /repo; timeout 300 bash $w/seed/demo.sh > $w/demo0.log 2>&1; b=\$?
      [ \$b = 0 ] || { echo '$id: DEMO FAILS WITHOUT PATCH'; tail -5 $w/demo0.log; exit; }
      git -C /repo apply $sd/patch.diff || { echo '$id: DOES NOT APPLY'; exit; }
      bash /opt/vp/build.sh > $w/build.log 2>&1 || { echo '$id: BUILD FAILS'; tail -20 $w/build.log; exit; }
      cd /repo; timeout 300 bash $w/seed/demo.sh > $w/demo1.log 2>&1; a=\$?
      echo \"$id: demo with patch \$a, without \$b\"
      tail -3 $w/demo1.log | sed 's/^/    with: /'
      if [ -z \"\${NOTEST:-}\" -a \$a != 0 ]; then
        bash /opt/vp/test.sh $w/t.json > $w/test.log 2>&1
        python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('$w/t.json'))
bad=[x for x in b if x not in t['passed']]
print('$id: stable tests failing: %d %s'%(len(bad),bad[:6]))\"
      fi
    "
    rm -rf "$w"
}
for i in "$@"; do one "$i"; done
