# shared by build.sh and run.sh
export HOME=${HOME:-/root} LANG=C.UTF-8
unset GOROOT GOFLAGS
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
build_an() {
	local new
	new=$(find "$V/analyzer" -name '*.go' -newer "$V/analyzer/bin/an" 2>/dev/null | head -1)
	if [ ! -x "$V/analyzer/bin/an" ] || [ -n "$new" ]; then
		mkdir -p "$V/analyzer/bin"
		(cd "$V/analyzer" && PATH=/usr/local/bin:/usr/bin:/bin GOFLAGS=-mod=vendor go1.27 build -o bin/an.$$ . && mv bin/an.$$ bin/an) || return 1
	fi
}
