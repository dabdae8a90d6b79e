package core

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
	"verif/harness/ref"
)

// ToP makes a point of the code under test from a model point.
func ToP(a ref.Pt) *p256.P256 {
	if a.Inf {
		return new(p256.P256).SetInfinity()
	}
	return &p256.P256{X: new(big.Int).Set(a.X), Y: new(big.Int).Set(a.Y)}
}

// FromP reads a point of the code under test; it fails on coordinates that are not
// canonical or not on the curve.
func FromP(p *p256.P256) (ref.Pt, error) {
	if p == nil {
		return ref.Pt{}, fmt.Errorf("nil point")
	}
	if PStr(p) == "inf" {
		return ref.Pt{Inf: true}, nil
	}
	r := ref.Pt{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
	for _, c := range []*big.Int{r.X, r.Y} {
		if c.Sign() < 0 || c.Cmp(ref.SecP) >= 0 {
			return r, fmt.Errorf("coordinate %s is not reduced", c)
		}
	}
	if !ref.Secp.On(r) {
		return r, fmt.Errorf("not on the curve: %s", r)
	}
	return r, nil
}

// SecMul is g^k by the model, with k reduced modulo the order first for speed.
func SecMul(p ref.Pt, k *big.Int) ref.Pt { return ref.Secp.Mul(p, new(big.Int).Mod(k, ref.SecN)) }

func I(n int64) *big.Int       { return big.NewInt(n) }
func Pow2(n int) *big.Int      { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
func ModN(x *big.Int) *big.Int { return new(big.Int).Mod(x, ref.SecN) }
func Bi(s string) *big.Int     { v, _ := new(big.Int).SetString(s, 0); return v }
