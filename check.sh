#!/bin/bash
# usage: check.sh [PROPERTY...]   builds the analyzer when needed and runs it against /repo
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOMODCACHE=${GOMODCACHE:-$HOME/go/pkg/mod}
stamp=$(cat analyzer/*.go analyzer/driver/* analyzer/go.mod analyzer/go.sum | sha256sum)
mkdir -p bin evidence
if [ ! -x bin/analyzer ] || [ "$(cat bin/stamp 2>/dev/null)" != "$stamp" ]; then
	(cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/analyzer.$$ .) || { echo "cannot build analyzer" >&2; exit 2; }
	mv bin/analyzer.$$ bin/analyzer && echo "$stamp" > bin/stamp
fi
[ "$1" = --build ] && exit 0
exec bin/analyzer -repo "${VERIF_REPO:-/repo}" -out evidence -known known_findings.txt "$@"
