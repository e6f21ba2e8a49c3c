#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin
(cd gocv && flock ../bin/.lock go build -o ../bin/gocv .) || exit 2
exec bin/gocv -repo "${GOCV_REPO:-/repo}" -contracts "$PWD/contracts" check "$@"
