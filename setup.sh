#!/bin/bash
# setup.sh — builds the engine (checks rebuild it when needed).
set -eu
cd "$(dirname "$0")"
mkdir -p bin evidence
cd engine && GOFLAGS= GOTOOLCHAIN=local go build -mod=vendor -o ../bin/gosym .
