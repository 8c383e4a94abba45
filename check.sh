#!/bin/bash
# check.sh setup              build the engine
# check.sh C01 [quick|thorough] [engine flags]   decide one property
# check.sh replay FILE        run a recorded counterexample against the real code
set -u
verif=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOWORK=off
export GOCACHE=$verif/bin/gocache
mkdir -p "$verif/bin" "$verif/evidence"
build() {
	(cd "$verif/engine" && go build -o "$verif/bin/engine" .) || { echo "engine does not build" >&2; exit 2; }
}
case "${1:-}" in
setup)
	build
	# warm the build cache that replays use
	(cd "${VERIF_REPO:-/repo}" && go build -o "$verif/bin/warm/" ./cmd/... && go test -c -vet=off -o "$verif/bin/warm/" ./index) >/dev/null 2>&1
	rm -rf "$verif/bin/warm"
	;;
replay)
	build
	exec "$verif/bin/engine" -repo "${VERIF_REPO:-/repo}" -verif "$verif" -replay "$2"
	;;
C*)
	prop=$1
	shift
	tier=${VERIF_TIER:-quick}
	case "${1:-}" in
	quick | thorough)
		tier=$1
		shift
		;;
	esac
	build
	exec "$verif/bin/engine" -repo "${VERIF_REPO:-/repo}" -verif "$verif" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" "$@"
	;;
*)
	sed -n 2,4p "$0"
	exit 2
	;;
esac
