package main

import (
	"time"

	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func tmHeader(h int64) tmproto.Header {
	return tmproto.Header{Height: h, Time: time.Unix(1700000000+h, 0)}
}

func tmEd(k string) tmed.PubKey { return tmed.PubKey([]byte(k)) }
