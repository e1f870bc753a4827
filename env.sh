export GOROOT=/opt/veriftools/go1.25.14 GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0 GOPROXY=off GOWORK=off GOPATH=/root/go
