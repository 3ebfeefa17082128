#!/bin/bash
# prepare.sh OUTDIR standin|real - builds copies of /repo/lr/*.go (see cmd/lrgen).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/../env.sh"
mkdir -p "$1"
cd "$here/../harness" && go run ./cmd/lrgen "$1" "$here/standin" "$(cd "$here/../harness" && pwd)" "$2"
