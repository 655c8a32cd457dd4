#!/bin/bash
# rt.sh NAME  (python edit script on stdin; cwd = src copy). runs all checks on the copy
export PYTHONPATH=$(cd "$(dirname "$0")" && pwd); n=$1; d=$(mktemp -d); cp -r /repo/src $d/src; find $d -name __pycache__ -prune -exec rm -rf {} +
cd $d/src && python3 - || { echo "EDIT FAILED"; exit 1; }
[ -n "$(diff -rq /repo/src $d/src | grep -v pycache)" ] || echo "NO CHANGE"
python3 -W ignore -m compileall -q $d/src >/dev/null || echo "SYNTAX"
cd /verif
ids=${CH:-$(ls sa/props/C*.py | xargs -n1 basename | sed 's/.py//')}
one() { o=$(VERIF_SRC=$2/src timeout 600 /verif/check.py $1 2>&1); r=$?; if [ $r != 0 ]; then echo "== $1 exit $r"; echo "$o" | grep -v KNOWN | grep -v "^VIOL" | cut -c1-${W:-260} | sed -n "2,${L:-4}p"; fi; }
export -f one
echo $ids | tr ' ' '\n' | xargs -P 8 -I{} bash -c "one {} $d"
rm -rf "$d"
