#!/bin/sh
# Builds the analyser from committed sources, offline.
set -e
cd "$(dirname "$0")/ouroflow"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/ouroflow .
