#!/bin/bash
# run the check of a seeded bug's property on a scratch copy of /repo with the bug applied
H=$(dirname $(dirname $(realpath $0))); d=$H/seeded/$1
p=$(/opt/venv/bin/python -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/try_XXXXXX)
cp -a /repo $w/repo
git -C $w/repo apply $d/patch.diff || exit 9
cd $H; PYVC_REPO=$w/repo PYVC_OUT=$w /opt/venv/bin/python -m pyvc.runner $p "${@:2}" > $w/log 2>&1; rc=$?
grep -v "proved paths" $w/log | cut -c1-${W:-300}
echo "== $1 $p rc=$rc"
rm -rf $w
