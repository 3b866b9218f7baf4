#!/bin/bash
# Builds the extractor (nothing else is kept between runs; the failing-input search is built from /repo by each check).
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p build
(cd go2verus && go build -o ../build/go2verus .)
