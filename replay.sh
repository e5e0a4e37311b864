#!/bin/bash
# replay.sh FILE: reruns a recorded counterexample natively against /repo's current tree.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
. ./build.sh || exit 2
exec "$ROOT/.bin/vengine" replay "$1"
