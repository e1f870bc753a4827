module verif/libsim

go 1.21

require (
	github.com/shutter-network/shutter/shlib v0.0.0
	github.com/supranational/blst v0.3.12
	golang.org/x/crypto v0.14.0
)

require (
	github.com/ethereum/go-ethereum v1.13.4 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/shutter-network/shutter/shlib => /repo/shlib
