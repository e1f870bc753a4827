package main

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"

	blst "github.com/supranational/blst/bindings/go"
)

// The group order, and arithmetic that uses nothing of the code under test.
var order, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)

func scalar(x *big.Int) *blst.Scalar {
	b := make([]byte, 32)
	new(big.Int).Mod(x, order).FillBytes(b)
	s := new(blst.Scalar)
	return s.FromBEndian(b)
}

// g2exp is x times the generator of G2.
func g2exp(x *big.Int) *blst.P2Affine {
	if new(big.Int).Mod(x, order).Sign() == 0 {
		return new(blst.P2Affine)
	}
	return blst.P2Generator().Mult(scalar(x)).ToAffine()
}

// g1mul is x times p.
func g1mul(p *blst.P1Affine, x *big.Int) *blst.P1Affine {
	if new(big.Int).Mod(x, order).Sign() == 0 {
		return new(blst.P1Affine)
	}
	q := new(blst.P1)
	q.FromAffine(p)
	return q.Mult(scalar(x)).ToAffine()
}

func randScalar(r *Rng) *big.Int {
	return new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(40)), order)
}

// polyAt evaluates a polynomial given by its coefficients.
func polyAt(coeffs []*big.Int, x int64) *big.Int {
	sum, pow := new(big.Int), big.NewInt(1)
	for _, c := range coeffs {
		sum.Add(sum, new(big.Int).Mul(c, pow))
		pow.Mul(pow, big.NewInt(x))
	}
	return sum.Mod(sum, order)
}

// interpolate computes the value at 0 of the polynomial through the points.
func interpolate(xs []int64, ys []*big.Int) *big.Int {
	sum := new(big.Int)
	for i := range xs {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if i != j {
				num.Mul(num, big.NewInt(-xs[j]))
				den.Mul(den, big.NewInt(xs[i]-xs[j]))
			}
		}
		den.Mod(den, order)
		l := num.Mul(num, new(big.Int).ModInverse(den, order))
		sum.Add(sum, l.Mul(l, ys[i]))
	}
	return sum.Mod(sum, order)
}

// entropy is the random source the code under test sees.
type entropy struct {
	r *Rng
	// failAfter lets reads fail once that many bytes have been delivered; negative: never.
	failAfter int
	// short limits the bytes a single read returns; 0: no limit.
	short int
}

var errEntropy = errors.New("simulated entropy failure")

func (e *entropy) Read(p []byte) (int, error) {
	if e.failAfter == 0 {
		return 0, errEntropy
	}
	n := len(p)
	if e.short > 0 && n > e.short {
		n = e.short
	}
	if e.failAfter > 0 && n > e.failAfter {
		n = e.failAfter
	}
	copy(p, e.r.Bytes(n))
	if e.failAfter > 0 {
		e.failAfter -= n
	}
	return n, nil
}

// withEntropy runs f while crypto/rand reads from e.
func withEntropy(e io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = e
	defer func() { rand.Reader = old }()
	f()
}
