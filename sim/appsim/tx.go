package main

import (
	"crypto/ecdsa"
	"encoding/base64"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/sim/simrt"
)

const numAccounts = 9

type account struct {
	key  *ecdsa.PrivateKey
	addr common.Address
	val  []byte // validator public key
	enc  []byte // compressed encryption public key
}

var accounts [numAccounts]account
var accountOf = map[common.Address]int{}

func init() {
	for i := range accounts {
		k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("account-%d", i))))
		if err != nil {
			panic(err)
		}
		a := account{key: k, addr: crypto.PubkeyToAddress(k.PublicKey)}
		a.val = crypto.Keccak256([]byte(fmt.Sprintf("validator-%d", i)))
		ek, _ := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("enc-%d", i))))
		a.enc = crypto.CompressPubkey(&ek.PublicKey)
		accounts[i] = a
		accountOf[a.addr] = i
	}
}

// Msg is one message in readable form. Addresses are account numbers; -1 is an unknown address and
// -2 a malformed one.
type Msg struct {
	Kind      string   `json:"kind"`
	Start     uint64   `json:"start,omitempty"` // start batch index
	Members   []int    `json:"members,omitempty"`
	Threshold uint64   `json:"threshold,omitempty"`
	Contract  int      `json:"contract,omitempty"` // -2: malformed
	Index     uint64   `json:"index,omitempty"`    // config index, batch index, epoch
	Started   bool     `json:"started,omitempty"`
	ValUpd    bool     `json:"valupd,omitempty"`
	Eon       uint64   `json:"eon,omitempty"`
	Data      []string `json:"data,omitempty"` // evals, signatures, group elements: "0x.." bytes or "gen:N"
	Val       string   `json:"val,omitempty"`
	Enc       string   `json:"enc,omitempty"`
}

// Tx is a message with its envelope.
type Tx struct {
	From   int    `json:"from"`
	Chain  string `json:"chain"`
	Nonce  uint64 `json:"nonce"`
	Msg    Msg    `json:"msg"`
	Mangle string `json:"mangle,omitempty"`
	Arg    int    `json:"arg,omitempty"`
}

func addrBytes(i int) []byte {
	switch {
	case i >= 0 && i < numAccounts:
		return accounts[i].addr.Bytes()
	case i == -2:
		return []byte{1, 2, 3}
	default:
		b := make([]byte, 20)
		b[19] = byte(-i)
		b[0] = 0x77
		return b
	}
}

func addrsBytes(is []int) [][]byte {
	var r [][]byte
	for _, i := range is {
		r = append(r, addrBytes(i))
	}
	return r
}

var genG1 = map[string][]byte{}
var genG2 = map[string][]byte{}

func dataBytes(s string, kind string) []byte {
	var n int64
	if _, err := fmt.Sscanf(s, "gen:%d", &n); err == nil {
		switch kind {
		case "g2":
			if genG2[s] == nil {
				genG2[s] = new(bn256.G2).ScalarBaseMult(big.NewInt(n)).Marshal()
			}
			return genG2[s]
		case "g1":
			if genG1[s] == nil {
				genG1[s] = new(bn256.G1).ScalarBaseMult(big.NewInt(n)).Marshal()
			}
			return genG1[s]
		}
	}
	return common.FromHex(s)
}

func datasBytes(ss []string, kind string) [][]byte {
	var r [][]byte
	for _, s := range ss {
		r = append(r, dataBytes(s, kind))
	}
	return r
}

func (m Msg) proto() *shmsg.Message {
	switch m.Kind {
	case "batch_config":
		return &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{
			StartBatchIndex: m.Start, Keypers: addrsBytes(m.Members), Threshold: m.Threshold,
			ConfigContractAddress: addrBytes(m.Contract), ConfigIndex: m.Index, Started: m.Started, ValidatorsUpdated: m.ValUpd,
		}}}
	case "config_started":
		return shmsg.NewBatchConfigStarted(m.Index)
	case "check_in":
		return &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: &shmsg.CheckIn{
			ValidatorPublicKey: common.FromHex(m.Val), EncryptionPublicKey: common.FromHex(m.Enc),
		}}}
	case "eon_vote":
		return shmsg.NewEonStartVote(m.Start)
	case "signature":
		return shmsg.NewDecryptionSignature(m.Index, common.FromHex(m.Data[0]))
	case "poly_eval":
		return &shmsg.Message{Payload: &shmsg.Message_PolyEval{PolyEval: &shmsg.PolyEval{
			Eon: m.Eon, Receivers: addrsBytes(m.Members), EncryptedEvals: datasBytes(m.Data, ""),
		}}}
	case "commitment":
		return &shmsg.Message{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{
			Eon: m.Eon, Gammas: datasBytes(m.Data, "g2"),
		}}}
	case "accusation":
		return &shmsg.Message{Payload: &shmsg.Message_Accusation{Accusation: &shmsg.Accusation{
			Eon: m.Eon, Accused: addrsBytes(m.Members),
		}}}
	case "apology":
		return &shmsg.Message{Payload: &shmsg.Message_Apology{Apology: &shmsg.Apology{
			Eon: m.Eon, Accusers: addrsBytes(m.Members), PolyEvals: datasBytes(m.Data, ""),
		}}}
	case "key_share":
		return &shmsg.Message{Payload: &shmsg.Message_EpochSecretKeyShare{EpochSecretKeyShare: &shmsg.EpochSecretKeyShare{
			Eon: m.Eon, Epoch: m.Index, Share: dataBytes(m.Data[0], "g1"),
		}}}
	case "empty":
		return &shmsg.Message{}
	default:
		return nil
	}
}

var halfN = new(big.Int).Rsh(crypto.S256().Params().N, 1)

// Bytes builds the transaction as a client would send it.
func (t Tx) Bytes() []byte {
	m := &shmsg.MessageWithNonce{Msg: t.Msg.proto(), ChainId: []byte(t.Chain), RandomNonce: t.Nonce}
	signed, err := shmsg.SignMessage(m, accounts[t.From].key)
	if err != nil {
		panic(err)
	}
	switch t.Mangle {
	case "":
	case "malleate": // the other valid signature of the same message
		s := new(big.Int).SetBytes(signed[32:64])
		s.Sub(crypto.S256().Params().N, s)
		s.FillBytes(signed[32:64])
		signed[64] ^= 1
	case "flip": // one bit wrong
		signed[t.Arg%len(signed)] ^= 1 << (uint(t.Arg/len(signed)) % 8)
	case "truncate":
		signed = signed[:t.Arg%len(signed)]
	case "append": // trailing garbage
		signed = append(signed, byte(t.Arg), 0xff)
	case "payload": // signature over a garbage payload
		p := make([]byte, t.Arg%40)
		for i := range p {
			p[i] = byte(simrt.Mix(uint64(t.Arg), uint64(i)))
		}
		signed = append(append([]byte{}, signed[:65]...), p...)
	case "padded": // same bytes in another base64 alphabet
		return []byte(base64.StdEncoding.EncodeToString(signed))
	case "raw":
		b := make([]byte, t.Arg%200)
		for i := range b {
			b[i] = byte(simrt.Mix(uint64(t.Arg), uint64(i)))
		}
		return b
	case "newline": // base64 decoders skip line breaks: other bytes, same message
		b := base64.RawURLEncoding.EncodeToString(signed)
		k := t.Arg % len(b)
		return []byte(b[:k] + "\n" + b[k:])
	default:
		panic("unknown mangle " + t.Mangle)
	}
	return []byte(base64.RawURLEncoding.EncodeToString(signed))
}

// decoded is what the receiver of a transaction can make of it.
type decoded struct {
	ok     bool
	signer common.Address
	msg    *shmsg.MessageWithNonce
}

// decode parses a transaction the way the protocol defines it. Only used for transactions that were
// deliberately damaged; well-formed ones are judged by what their author wrote.
func decode(b []byte) (d decoded) {
	signed, err := base64.RawURLEncoding.DecodeString(string(b))
	if err != nil {
		return
	}
	if d.signer, err = shmsg.GetSigner(signed); err != nil {
		return
	}
	if d.msg, err = shmsg.GetMessage(signed); err != nil {
		return
	}
	d.ok = true
	return
}
