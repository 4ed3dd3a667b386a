#!/bin/bash
# check.sh <property> <tier>: builds the engine and decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./setup.sh || exit 2
exec ./bin/gosym check -prop "$1" -tier "${2:-quick}" -root "$PWD"
