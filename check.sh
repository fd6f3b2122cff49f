#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property of /repo's current tree
# check.sh --replay FILE               re-run a recorded failing input against the real code
# check.sh --build                     build the verifier
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
cd "$(dirname "$0")" || exit 2
build() {
  mkdir -p bin
  (cd engine && GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off go build -o ../bin/goverif.$$ . && mv ../bin/goverif.$$ ../bin/goverif) || { echo "cannot build the verifier" >&2; exit 2; }
}
stale() { [ ! -x bin/goverif ] || [ -n "$(find engine -newer bin/goverif -name '*.go' -print -quit)" ]; }
case "$1" in
  --build) build; exit 0;;
  --replay) stale && build; exec bin/goverif -replay "$2";;
esac
stale && build
exec bin/goverif -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
