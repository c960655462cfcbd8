#!/bin/bash
# Instrument a copy of /repo's working tree and build the simulator against it.
#   build.sh [race]
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
mkdir -p .build
exec 9>.build/lock
flock 9
(cd simkit && go build -o ../.build/instr ./instr)
race=$1
make() {
	.build/instr "$@" "${VERIF_REPO:-/repo}" .build/maho || return
	# The second process of C27.
	.build/instr "$@" "${VERIF_REPO:-/repo}" .build/mahob maho.other/b || return
	mkdir -p .build/mahob/verifproc
	sed 's|github.com/leftmike/maho/|maho.other/b/|' harness/identcheck/proc/proc.go >.build/proc.new
	cmp -s .build/proc.new .build/mahob/verifproc/proc.go || cp .build/proc.new .build/mahob/verifproc/proc.go
	if [ "$race" = race ]; then
		go build -race -o .build/verif-race ./harness
	else
		go build -o .build/verif ./harness
	fi
}
if ! make 2>.build/build.err; then
	# Something of the channels, maps, or clocks which can not be rewritten.
	make -plain
fi
