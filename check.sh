#!/bin/bash
# check.sh Cxx: decide one property on /repo's current tree.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
V=$PWD
if [ ! -x gocv/bin/gocv ] || [ -n "$(find gocv -maxdepth 1 -name '*.go' -newer gocv/bin/gocv | head -1)" ]; then
  (cd gocv && go build -mod=vendor -o bin/gocv .) || exit 2
fi
exec gocv/bin/gocv -verif "$V" -prop "$1" "${@:2}"
