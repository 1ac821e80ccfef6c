#!/bin/bash
# builds the verifier from the committed sources
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin work evidence
(cd vcg && go build -o ../bin/vcg .)
