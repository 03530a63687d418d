#!/bin/bash
# setup.sh: builds the framework and the instrumented system once, to fill the build cache.
cd "$(dirname "$0")/sim" || exit 2
. ../tools/env.sh
mkdir -p ../.build
go build -o ../.build/vsim.setup ./cmd/vsim || exit 2
exec ../.build/vsim.setup build -root "$(cd .. && pwd)"
