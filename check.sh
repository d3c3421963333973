#!/bin/bash
# check.sh ID [quick|thorough] [REPLAYFILE]
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOWORK=off
go=go
b=$(mktemp -d) || exit 2
trap 'rm -rf "$b"' EXIT
(cd tools/vrun && $go build -o "$b/vrun" .) || { echo "ERROR cannot build vrun"; exit 2; }
"$b/vrun" "$1" "${2:-${VERIF_TIER:-quick}}" ${3:+"$3"}
