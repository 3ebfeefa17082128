#!/bin/bash
# Warms the build cache; every check rebuilds from /repo by itself.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness" && go build -o /dev/null ./cmd/mc && go build -o /dev/null ./cmd/instr
go build -race -o /dev/null ./cmd/race || true
