# Go toolchain of this sandbox, offline; workspace = checker module + /repo's modules.
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-buildvcs=false
unset GOOS GOARCH GOROOT GODEBUG QRCODE_DEBUG GOMAXPROCS
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
if ! mkdir -p "$GOCACHE" 2>/dev/null || ! [ -w "$GOCACHE" ]; then export GOCACHE=${TMPDIR:-/tmp}/verif-gocache; fi
export VERIF_ROOT=$here GOWORK=$here/go.work
