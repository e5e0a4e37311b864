#!/bin/bash
# check.sh PROPERTY [vengine flags]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
. ./build.sh || { echo "ERROR: the engine does not build"; exit 2; }
P=$1; shift
exec "$ROOT/.bin/vengine" check -root "$ROOT" -prop "$P" "$@"
