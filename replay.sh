#!/bin/bash
# replay.sh FILE: replays a file a check reported; exit 1 if the violation occurs again.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")/sim" || exit 2
. ../tools/env.sh
mkdir -p ../.build
go build -o ../.build/vsim.replay ./cmd/vsim || exit 2
exec ../.build/vsim.replay replay -root "$(cd .. && pwd)" -file "$f"
