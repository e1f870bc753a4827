package ethsim

import (
	"crypto/ecdsa"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
)

// Deployment is the set of shutter's contracts on a chain.
type Deployment struct {
	Chain *Chain
	Owner *ecdsa.PrivateKey
	C     map[string]*Contract
	time  func() uint64
}

// Deploy creates a chain that funds the given accounts and deploys all contracts on it.
func Deploy(owner *ecdsa.PrivateKey, accounts []common.Address, headsUp, appealBlocks uint64, time func() uint64) *Deployment {
	funds := append([]common.Address{AddrOf(owner), erc1820.DeployerAddress}, accounts...)
	d := &Deployment{Chain: New(funds, nil, time()), Owner: owner, C: map[string]*Contract{}, time: time}
	if err := d.Chain.Submit(d.Chain.Head, erc1820.DeploymentTransaction); err != nil {
		panic(err)
	}
	d.Chain.Mine(time())
	config := d.deploy("config", contract.ConfigContractABI, contract.ConfigContractBin, headsUp)
	bank := d.deploy("feebank", contract.FeeBankContractABI, contract.FeeBankContractBin)
	batcher := d.deploy("batcher", contract.BatcherContractABI, contract.BatcherContractBin, config, bank)
	token := d.deploy("token", contract.TestDepositTokenContractABI, contract.TestDepositTokenContractBin)
	deposit := d.deploy("deposit", contract.DepositContractABI, contract.DepositContractBin, token)
	executor := d.deploy("executor", contract.ExecutorContractABI, contract.ExecutorContractBin, config, batcher, deposit)
	d.deploy("slasher", contract.KeyperSlasherABI, contract.KeyperSlasherBin, new(big.Int).SetUint64(appealBlocks), config, executor, deposit)
	d.deploy("broadcast", contract.KeyBroadcastContractABI, contract.KeyBroadcastContractBin, config)
	d.deploy("target", contract.MockTargetContractABI, contract.MockTargetContractBin)
	return d
}

// Bare makes a chain with funded accounts and no contracts at all.
func Bare(owner *ecdsa.PrivateKey, accounts []common.Address, time func() uint64) *Deployment {
	return &Deployment{Chain: New(append([]common.Address{AddrOf(owner)}, accounts...), nil, time()), Owner: owner, C: map[string]*Contract{}, time: time}
}

// AddrOf returns the address of a key.
func AddrOf(k *ecdsa.PrivateKey) common.Address { return crypto.PubkeyToAddress(k.PublicKey) }

// Addr returns the address of a contract.
func (d *Deployment) Addr(name string) common.Address { return d.C[name].Addr }

// Raw sends a transaction.
func (d *Deployment) Raw(k *ecdsa.PrivateKey, to *common.Address, data []byte, gas uint64) *types.Transaction {
	n := d.Chain.PendingNonce(d.Chain.Head, AddrOf(k))
	var tx *types.Transaction
	if to == nil {
		tx = types.NewContractCreation(n, new(big.Int), gas, GasPrice, data)
	} else {
		tx = types.NewTransaction(n, *to, new(big.Int), gas, GasPrice, data)
	}
	tx, err := types.SignTx(tx, d.Chain.Signer(), k)
	if err != nil {
		panic(err)
	}
	if err := d.Chain.Submit(d.Chain.Head, tx); err != nil {
		panic(fmt.Sprintf("simulator's own transaction refused: %v", err))
	}
	return tx
}

// Send calls a contract's method.
func (d *Deployment) Send(k *ecdsa.PrivateKey, name, method string, args ...interface{}) *types.Transaction {
	c := d.C[name]
	data, err := c.ABI.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	return d.Raw(k, &c.Addr, data, 1_000_000)
}

// View calls a constant method.
func (d *Deployment) View(b *Block, name, method string, args ...interface{}) []interface{} {
	return d.Chain.View(b, d.C[name], method, args...)
}

func (d *Deployment) deploy(name, abiDef, bin string, args ...interface{}) common.Address {
	c := NewContract(common.Address{}, abiDef)
	data, err := c.ABI.Pack("", args...)
	if err != nil {
		panic(err)
	}
	tx := d.Raw(d.Owner, nil, append(common.FromHex(bin), data...), 10_000_000)
	b := d.Chain.Mine(d.time())
	for i, x := range b.Txs {
		if x.Hash() == tx.Hash() {
			if b.Receipts[i].Status != 1 {
				panic("deployment of " + name + " failed")
			}
			c.Addr = b.Receipts[i].ContractAddress
			d.C[name] = c
			return c.Addr
		}
	}
	panic("deployment of " + name + " not mined")
}
