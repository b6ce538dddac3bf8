#!/bin/bash
# check.sh ID [quick|thorough]: run the check of one property on /repo's working tree.
cd "$(dirname "$0")" || exit 1
here=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tier=${2:-${VERIF_TIER:-quick}}
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
mkdir -p "$here/bin"
if ! (cd checker && go build -o "$here/bin/.chk.$$" . && mv "$here/bin/.chk.$$" "$here/bin/blangcheck") >"$here/bin/build.log" 2>&1; then
	cat "$here/bin/build.log"
	echo "the checker cannot be built"
	exit 1
fi
[ "$1" = build ] && exit 0
"$here/bin/blangcheck" -repo "${BLANG_REPO:-/repo}" -verif "$here" -check "$1" -tier "$tier"
rc=$?
[ $rc -eq 0 ] && exit 0
[ $rc -eq 1 ] && exit 1
echo "the analysis ended with $rc"
echo "VIOLATION property=$1 replay=$here/bin/build.log"
exit 1
