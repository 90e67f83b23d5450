#!/bin/bash
# Builds the analyser from the committed sources (vendored dependencies, offline).
set -e
cd "$(dirname "$0")/checker"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
mkdir -p ../bin
go build -mod=vendor -o ../bin/checker .
