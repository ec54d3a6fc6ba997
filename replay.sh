#!/bin/bash
# replay.sh FILE — runs a recorded counterexample against the real build.
set -u
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOFLAGS= GOTOOLCHAIN=local GO111MODULE=on
mkdir -p bin
(cd engine && go build -mod=vendor -o ../bin/gosym .) || exit 2
exec ./bin/gosym replay "$f"
