#!/bin/bash
# Builds both variants of the harness (warms the build cache); offline.
cd "$(dirname "$0")" || exit 2
. harness/env.sh
mkdir -p .build evidence
cd harness && go build -tags verif -o ../.build/h . && go build -race -tags verif -o ../.build/hrace . && go build -o ../.build/bond-cli github.com/go-bond/bond/cmd/bond-cli
