#!/bin/bash
# seedtest.sh ID : confirms a planted change in a scratch copy: demo passes without it; with it the tree builds, the
# stable tests pass and the demo fails
set -u
S=/verif/seeded/$1; D=/tmp/seed-$1; rm -rf "$D"; mkdir -p "$D"
cp -a "${BASE:-/repo}" "$D/repo"; cp -a /opt/vp/work "$D/work"
cp -a "$S" "$D/s"; rm -f "$D/s/patch.diff" "$D/s/meta.json"
. /opt/vp/env.sh
demo() { (cd "$1" && timeout 300 bash "$D/s/demo.sh") > "$D/demo.$2.log" 2>&1; echo $?; }
# the copy is bound over /repo in a private namespace, so that build.sh and test.sh act on it; its own network and work folder
in_ns() { unshare -Urmn bash -c "ip link set lo up; mount --bind $D/repo /repo && mount --bind $D/work /opt/vp/work && $1"; }
git -C "${BASE:-/repo}" diff --quiet || { echo "repo dirty"; exit 1; }
a=$(in_ns "bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && timeout 300 bash $D/s/demo.sh > $D/demo.clean.log 2>&1; echo \$?" | tail -1)
git -C "$D/repo" apply "$S/patch.diff" || { echo "does not apply"; exit 1; }
b=$(in_ns "bash /opt/vp/build.sh > $D/build.log 2>&1; echo \$?" | tail -1)
in_ns "bash /opt/vp/test.sh $D/o.json >/dev/null 2>&1"
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$D/o.json'))
print(len(set(b['stable'])-set(o['passed'])))")
c=$(in_ns "cd /repo && timeout 300 bash $D/s/demo.sh > $D/demo.bug.log 2>&1; echo \$?" | tail -1)
echo "$1: demo clean=$a build=$b tests-lost=$t demo with bug=$c"
[ "$a" = 0 ] && [ "$b" = 0 ] && [ "$t" = 0 ] && [ "$c" != 0 ] && echo "GOOD $1"
rm -rf "$D"
