#!/bin/bash
# Builds the release tool, whose bump command rewrites the metadata file.
cp /repo/go.mod "$1/rel.mod" && cp /repo/go.sum "$1/rel.sum" || exit 1
cd /repo && go build -modfile="$1/rel.mod" -o "$1/release" ./internal/tools/release
