// Package simrt is the common base of the simulators: seeded randomness, the simulated disk and
// the result format.
package simrt

import "hash/fnv"

// Rng is a splitmix64 generator. It never touches the runtime's random streams, so drawing from it
// does not shift the numbers the code under test sees.
type Rng struct{ s uint64 }

// Mix hashes a list of numbers into one seed.
func Mix(xs ...uint64) uint64 {
	s := uint64(0x9e3779b97f4a7c15)
	for _, x := range xs {
		r := Rng{s ^ x*0xff51afd7ed558ccd}
		s = r.Uint64()
	}
	return s
}

// HashString hashes a string to a number.
func HashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// NewRng returns a generator for the seed.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

// Fork derives an independent stream.
func (r *Rng) Fork(label string) *Rng { return NewRng(Mix(r.Uint64(), HashString(label))) }

// Uint64 returns the next number.
func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.Intn(b-a+1)
}

// Float returns a number in [0,1).
func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// P returns true with probability p.
func (r *Rng) P(p float64) bool { return r.Float() < p }

// Perm returns a permutation of 0..n-1.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Bytes returns n random bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64() >> 32)
	}
	return b
}
