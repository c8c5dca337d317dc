#!/bin/bash
# check.sh ID | build | replay FILE | selftest N [ID...]
# Builds the driver and runs it. Nothing is written outside .build, evidence and replays
# (and a scratch directory that is removed).
cd "$(dirname "$0")" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export SIM_ROOT="$PWD"
mkdir -p .build || exit 3
(
  flock 9
  cd sim && go build -o ../.build/ ./cmd/vsim ./cmd/instr
) 9>.build/lock0 || { echo "check.sh: cannot build the driver" >&2; exit 3; }
case "$1" in
  C[0-9][0-9]) exec .build/vsim check "$1" ;;
  *) exec .build/vsim "$@" ;;
esac
