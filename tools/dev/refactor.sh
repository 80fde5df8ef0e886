#!/bin/sh
# refactor.sh KIND [PROPS...]: the checks on a copy of /repo with one kind of behaviour-preserving edit everywhere
kind=$1; shift
src=${SRC:-/tmp/rw}; [ -d $src ] || src=/repo
d=/tmp/rf/$kind; mkdir -p /tmp/rf; [ -d $d ] && /bin/rm -r $d; cp -a $src $d
cd "$(dirname "$0")/../.."
python3 tools/dev/refactor.py $kind $src $d || exit 1
props=${*:-$(ls contracts | sed -n 's/^p\([0-9]*\).py/P\1/p')}
mkdir -p /tmp/rf/ev.$kind /tmp/rf/out.$kind
echo $props | tr ' ' '\n' | PV_REPO=$d PV_EVIDENCE=/tmp/rf/ev.$kind xargs -P${PAR:-5} -I{} sh -c "timeout 850 python3 run.py {} > /tmp/rf/out.$kind/{} 2>&1; rc=\$?; echo {} rc=\$rc \$(grep -c VIOLATION /tmp/rf/out.$kind/{}) \$(grep -c '^ERROR' /tmp/rf/out.$kind/{}) \$(tail -1 /tmp/rf/out.$kind/{} | cut -c1-120)" > /tmp/rf/$kind.sum
sort /tmp/rf/$kind.sum
