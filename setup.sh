#!/bin/bash
# builds the verifier (checks rebuild it if it is missing)
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin && cd gocv && flock ../bin/.lock go build -o ../bin/gocv .
