#!/bin/bash
# Builds the engine into bin/ (ignored by git).
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin && cd engine && go build -o ../bin/gosym.$$ ./cmd/gosym && mv ../bin/gosym.$$ ../bin/gosym
