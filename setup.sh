#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd engine && exec env GOFLAGS=-mod=vendor go build -o ../bin/gosym .
