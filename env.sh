# Sourced by build.sh and check.sh: the offline Go environment.
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off
export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOCACHE=/root/.cache/go-build
export PATH="$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
