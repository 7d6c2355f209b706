#!/bin/bash
# catch.sh ID [PROPERTY]: runs the check of the property against a copy of the tree with the planted change
S=/verif/seeded/$1; D=/tmp/catch-$1; rm -rf "$D"; mkdir -p "$D"
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cp -a /repo "$D/repo"; cp -a /verif "$D/verif"; rm -rf "$D/verif/seeded"
git -C "$D/repo" apply "$S/patch.diff" || exit 9
s=$(date +%s)
unshare -Urm bash -c "mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /verif && VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 check.py $P" > "$D.log" 2>&1
echo "$1 $P rc=$? $(( $(date +%s) - s )) s: $(grep -m1 VIOLATION "$D.log" || tail -1 "$D.log")"
rm -rf "$D"
