package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	. "verif/harness/core"
	"verif/harness/ref"
)

func g1Bytes(p ref.Pt) string {
	b := make([]byte, 64)
	if p.Inf {
		b[63] = 1
	} else {
		p.X.FillBytes(b[:32])
		p.Y.FillBytes(b[32:])
	}
	return fmt.Sprintf("%x", b)
}

func g2Bytes(p ref.Pt2) string {
	b := make([]byte, 128)
	if !p.Inf {
		p.X.B.FillBytes(b[0:32])
		p.X.A.FillBytes(b[32:64])
		p.Y.B.FillBytes(b[64:96])
		p.Y.A.FillBytes(b[96:128])
	}
	return fmt.Sprintf("%x", b)
}

func raw(s string) []byte { var b []byte; fmt.Sscanf(s, "%x", &b); return b }

// el is an element of G1 or G2 with its discrete logarithm and its model value.
type grp interface {
	new() any
	base(k *big.Int) any
	baseTo(r any, k *big.Int) any
	add(r, a, b any) any
	neg(r, a any) any
	mul(r, a any, k *big.Int) any
	enc(a any) string
	dec(b []byte) (any, bool)
	isZero(a any) bool
	model(k *big.Int) string
	infinity() any
	name() string
}

type g1 struct{}
type g2 struct{}

func (g1) name() string                 { return "G1" }
func (g1) new() any                     { return new(bn256.G1) }
func (g1) infinity() any                { return new(bn256.G1).SetInfinity() }
func (g1) base(k *big.Int) any          { return new(bn256.G1).ScalarBaseMult(k) }
func (g1) baseTo(r any, k *big.Int) any { return r.(*bn256.G1).ScalarBaseMult(k) }
func (g1) add(r, a, b any) any          { return r.(*bn256.G1).Add(a.(*bn256.G1), b.(*bn256.G1)) }
func (g1) neg(r, a any) any             { return r.(*bn256.G1).Neg(a.(*bn256.G1)) }
func (g1) mul(r, a any, k *big.Int) any { return r.(*bn256.G1).ScalarMult(a.(*bn256.G1), k) }
func (g1) enc(a any) string             { return fmt.Sprintf("%x", a.(*bn256.G1).Marshal()) }
func (g1) dec(b []byte) (any, bool)     { x, ok := new(bn256.G1).Unmarshal(b); return x, ok && x != nil }
func (g1) isZero(a any) bool            { return a.(*bn256.G1).IsZero() }
func (g1) model(k *big.Int) string {
	return g1Bytes(ref.Bn.Mul(ref.BnG1, new(big.Int).Mod(k, ref.BnN)))
}

func (g2) name() string                 { return "G2" }
func (g2) new() any                     { return new(bn256.G2) }
func (g2) infinity() any                { return new(bn256.G2).SetInfinity() }
func (g2) base(k *big.Int) any          { return new(bn256.G2).ScalarBaseMult(k) }
func (g2) baseTo(r any, k *big.Int) any { return r.(*bn256.G2).ScalarBaseMult(k) }
func (g2) add(r, a, b any) any          { return r.(*bn256.G2).Add(a.(*bn256.G2), b.(*bn256.G2)) }
func (g2) neg(r, a any) any             { return r.(*bn256.G2).Neg(a.(*bn256.G2)) }
func (g2) mul(r, a any, k *big.Int) any { return r.(*bn256.G2).ScalarMult(a.(*bn256.G2), k) }
func (g2) enc(a any) string             { return fmt.Sprintf("%x", a.(*bn256.G2).Marshal()) }
func (g2) dec(b []byte) (any, bool)     { x, ok := new(bn256.G2).Unmarshal(b); return x, ok && x != nil }
func (g2) isZero(a any) bool            { return a.(*bn256.G2).IsZero() }
func (g2) model(k *big.Int) string      { return g2Bytes(ref.BnG2.Mul(new(big.Int).Mod(k, ref.BnN))) }

var groups = []grp{g1{}, g2{}}

// small multiples of the generators by the model, computed once.
var tables = map[string]map[int64]string{}

func smallModel(g grp, k int64) string {
	t := tables[g.name()]
	if t == nil {
		t = map[int64]string{}
		tables[g.name()] = t
	}
	if _, ok := t[k]; !ok {
		if g.name() == "G1" {
			t[k] = g1Bytes(ref.Bn.Mul(ref.BnG1, I(k)))
		} else {
			t[k] = g2Bytes(ref.BnG2.Mul(I(k)))
		}
	}
	return t[k]
}

const nReps = 5

// element makes base^k in one of several representations: 0 as the ladder leaves it, 1
// affine from its encoding, 2 and 3 as a sum with another Jacobian Z, 4 as a negation of
// an affine point.
func element(c *C, g grp, k *big.Int, rep int) any {
	switch rep {
	case 0:
		return g.base(k)
	case 1:
		x, ok := g.dec(raw(g.enc(g.base(k))))
		if !ok {
			c.Fail("%s: cannot decode the encoding of base^%s", g.name(), k)
			return g.base(k)
		}
		return x
	case 2:
		s := c.R.Below(ref.BnN)
		return g.add(g.new(), g.base(new(big.Int).Sub(k, s)), g.base(s))
	case 3:
		s := c.R.Below(ref.BnN)
		x := g.base(s)
		inv := new(big.Int).ModInverse(s, ref.BnN)
		if inv == nil {
			return g.base(k)
		}
		return g.mul(x, x, inv.Mod(inv.Mul(inv, k), ref.BnN))
	}
	x, ok := g.dec(raw(g.enc(g.base(new(big.Int).Neg(k)))))
	if !ok {
		c.Fail("%s: cannot decode the encoding of base^-%s", g.name(), k)
		return g.base(k)
	}
	return g.neg(g.new(), x)
}

func clone(g grp, x any) any { return CloneAny(x) }

func expNeg(k *big.Int) *big.Int { return new(big.Int).Neg(k) }

// exps draws discrete logarithms, with small ones and equal or opposite ones frequent.
func expo(c *C, prev ...*big.Int) *big.Int {
	switch c.R.Intn(7) {
	case 0:
		return I(0)
	case 1:
		return I(int64(c.R.Intn(9) - 4))
	case 2, 3:
		if len(prev) > 0 {
			return prev[c.R.Intn(len(prev))]
		}
	case 4:
		if len(prev) > 0 {
			return expNeg(prev[c.R.Intn(len(prev))])
		}
	}
	return c.R.Below(ref.BnN)
}

func cls(a, b *big.Int) string {
	x, y := new(big.Int).Mod(a, ref.BnN), new(big.Int).Mod(b, ref.BnN)
	s := new(big.Int).Add(x, y)
	switch {
	case x.Sign() == 0 && y.Sign() == 0:
		return "inf+inf"
	case x.Sign() == 0:
		return "inf+p"
	case y.Sign() == 0:
		return "p+inf"
	case x.Cmp(y) == 0:
		return "equal"
	case s.Mod(s, ref.BnN).Sign() == 0:
		return "opposite"
	}
	return "generic"
}
