// Package core runs the monitored workloads: it shards a deterministic case list over
// worker processes, collects what the monitors observed, and turns it into a verdict.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
)

// Rng is a deterministic generator (SHA-256 in counter mode); a case is reproducible from
// its seed string alone.
type Rng struct {
	key [32]byte
	ctr uint64
	buf []byte
}

func NewRng(seed string) *Rng { return &Rng{key: sha256.Sum256([]byte(seed))} }

func (r *Rng) Read(p []byte) (int, error) {
	for i := range p {
		if len(r.buf) == 0 {
			var b [40]byte
			copy(b[:], r.key[:])
			binary.BigEndian.PutUint64(b[32:], r.ctr)
			r.ctr++
			s := sha256.Sum256(b[:])
			r.buf = s[:]
		}
		p[i] = r.buf[0]
		r.buf = r.buf[1:]
	}
	return len(p), nil
}

func (r *Rng) Bytes(n int) []byte { b := make([]byte, n); r.Read(b); return b }
func (r *Rng) Uint64() uint64     { return binary.BigEndian.Uint64(r.Bytes(8)) }
func (r *Rng) Int64() int64       { return int64(r.Uint64()) }
func (r *Rng) Bool() bool         { return r.Bytes(1)[0]&1 == 1 }

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Below returns a number in [0,n).
func (r *Rng) Below(n *big.Int) *big.Int {
	b := new(big.Int).SetBytes(r.Bytes((n.BitLen() + 7 + 128) / 8))
	return b.Mod(b, n)
}

// Bits returns a number of at most n bits.
func (r *Rng) Bits(n int) *big.Int {
	if n <= 0 {
		return new(big.Int)
	}
	return r.Below(new(big.Int).Lsh(big.NewInt(1), uint(n)))
}

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *Rng) Fork(label string) *Rng { return NewRng(fmt.Sprintf("%x/%s", r.Bytes(32), label)) }

// Scalar returns a hostile integer for a group of order n: zero, small, negative, around
// the order and its multiples, sparse, or of unusual byte length.
func (r *Rng) Scalar(n *big.Int) *big.Int {
	one := big.NewInt(1)
	small := big.NewInt(int64(r.Intn(40)))
	var x *big.Int
	switch r.Intn(16) {
	case 0:
		x = small
	case 1:
		x = new(big.Int).Sub(n, small)
	case 2:
		x = new(big.Int).Add(n, small)
	case 3:
		x = new(big.Int).Add(new(big.Int).Mul(n, big.NewInt(int64(1+r.Intn(5)))), small)
	case 4:
		x = r.Bits(512)
	case 5:
		x = r.Bits(8 * (1 + r.Intn(32)))
	case 6:
		x = new(big.Int).Lsh(one, uint(r.Intn(300)))
	case 7:
		x = new(big.Int).Sub(new(big.Int).Lsh(one, uint(r.Intn(300))), one)
	case 8:
		x = new(big.Int).Rsh(n, 1)
		x.Add(x, small)
	case 9:
		x = new(big.Int).Lsh(r.Bits(16), uint(8*r.Intn(30)))
	default:
		x = r.Below(n)
	}
	if r.Intn(4) == 0 {
		x = new(big.Int).Neg(x)
	}
	return x
}
