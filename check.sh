#!/bin/bash
# usage: check.sh <property>   (VERIF_SEED, VERIF_TIER from the environment)
#        check.sh replay FILE | check.sh selftest [-runs N] [property ...]
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/sim" && go build -o "$tmp/vsim" ./cmd/vsim) || exit 2
case "${1:-}" in
  replay|selftest) "$tmp/vsim" "$@" ;;
  *) "$tmp/vsim" check "$@" ;;
esac
