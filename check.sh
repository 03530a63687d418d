#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulation from /repo's working tree and decides the property.
cd "$(dirname "$0")/sim" || exit 2
. ../tools/env.sh
mkdir -p ../.build
go build -o "../.build/vsim.$1" ./cmd/vsim || exit 2
exec "../.build/vsim.$1" check -root "$(cd .. && pwd)" -prop "$1" -tier "${2:-quick}"
