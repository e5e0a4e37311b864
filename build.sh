#!/bin/bash
# build.sh: builds the engine from /verif/engine (vendored, offline) if it is not up to date.
ROOT=${ROOT:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
mkdir -p "$ROOT/.bin"
( cd "$ROOT/engine" && flock "$ROOT/.bin/lock" env GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local go build -o "$ROOT/.bin/vengine" . )
