#!/bin/bash
# check.sh PROPERTY TIER — builds the solver-based engine and decides one property on /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOFLAGS= GOTOOLCHAIN=local GO111MODULE=on
mkdir -p bin evidence
(cd engine && go build -mod=vendor -o ../bin/gosym .) || { echo "engine build failed" >&2; exit 2; }
exec ./bin/gosym check "$@"
