export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
