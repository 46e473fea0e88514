#!/bin/bash
# builds the checker
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin && cd checker && GOFLAGS=-mod=vendor go build -o ../bin/checker .
