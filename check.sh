#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the analyser if needed and runs one check on /repo's current tree.
cd "$(dirname "$0")" || exit 1
id=$1
tier=${2:-${VERIF_TIER:-quick}}
viol() { mkdir -p evidence; echo "$1" > "evidence/$id.violation.txt"; echo "$1"; echo "VIOLATION property=$id replay=$PWD/evidence/$id.violation.txt"; exit 1; }
bash setup.sh >/tmp/xpxcheck-setup.$$ 2>&1 || { m=$(cat /tmp/xpxcheck-setup.$$); unlink /tmp/xpxcheck-setup.$$; viol "the analyser does not build: $m"; }
unlink /tmp/xpxcheck-setup.$$
. ./env.sh
export XPX_VERIF=$PWD
build/xpxcheck "$id" "$tier"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || viol "the analyser ended with status $rc"
exit $rc
