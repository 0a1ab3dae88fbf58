#!/bin/bash
# check.sh ID quick|thorough      decide a property
# check.sh ID replay FILE         decide a recorded case again
#
# Builds the checks from the working tree of /repo in a scratch directory, and
# runs them. Exit status: see DESIGN.md.
set -u
here=$(cd "$(dirname "$0")" && pwd)
root=$(dirname "$here")
id=$1
tier=$2

for go in /opt/veriftools/go1.23.12/bin/go /usr/local/go/bin/go "$(command -v go || true)"; do
	[ -x "$go" ] && break
done
[ -x "$go" ] || { echo "no go toolchain" >&2; exit 3; }
PATH=$(dirname "$go"):$PATH
export PATH HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=1

scratch=$(mktemp -d /tmp/verifpbt.XXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
trap 'exit 3' INT TERM HUP
export TMPDIR=$scratch

race=
flags=
case " C22 " in *" $id "*) race=-race; flags=-race-built ;; esac
build() { (cd "$here" && "$go" build $race "$@" -o "$scratch/verifpbt" .) >"$scratch/build.log" 2>&1; }
# without access to internal packages, should their functions have changed.
if ! build -tags internals && ! build; then
	cat "$scratch/build.log" >&2
	echo "could not build the checks" >&2
	exit 3
fi
if [ "$id" = C26 ]; then
	if ! (cd /repo && "$go" build -o "$scratch/mtex-render" ./cmd/mtex-render) >"$scratch/build.log" 2>&1; then
		cat "$scratch/build.log" >&2
		echo "could not build mtex-render" >&2
		exit 3
	fi
	export VERIF_MTEX_RENDER=$scratch/mtex-render
fi

if [ "$tier" = list ]; then
	"$scratch/verifpbt" -list
elif [ "$tier" = replay ]; then
	"$scratch/verifpbt" -check "$id" -root "$root" $flags -replay "$3"
else
	"$scratch/verifpbt" -check "$id" -root "$root" $flags -tier "$tier" -seed "${VERIF_SEED:-1}"
fi
exit $?
