package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

var order = ref.BnN

func modN(x *big.Int) *big.Int { return new(big.Int).Mod(x, order) }
func fm(xs ...*big.Int) *big.Int {
	r := I(1)
	for _, x := range xs {
		r.Mul(r, x).Mod(r, order)
	}
	return r
}
func fa(xs ...*big.Int) *big.Int {
	r := I(0)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r.Mod(r, order)
}
func fneg(x *big.Int) *big.Int { return modN(new(big.Int).Neg(x)) }
func finv(x *big.Int) *big.Int { return new(big.Int).ModInverse(modN(x), order) }

func g2(k *big.Int) *bn256.G2                 { return new(bn256.G2).ScalarBaseMult(modN(k)) }
func g2mul(p *bn256.G2, k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarMult(p, modN(k)) }
func g2add(a, b *bn256.G2) *bn256.G2          { return new(bn256.G2).Add(a, b) }
func g2neg(a *bn256.G2) *bn256.G2             { return g2mul(a, I(-1)) }

var gen1 = new(bn256.G1).ScalarBaseMult(I(1))
var gtE = bn256.Pair(gen1, g2(I(1)))

func gtmul(p *bn256.GT, k *big.Int) *bn256.GT { return new(bn256.GT).ScalarMult(p, modN(k)) }
func gtadd(a, b *bn256.GT) *bn256.GT          { return new(bn256.GT).Add(a, b) }

// hostileInt64 picks set elements and bounds.
func hostileInt64(r *Rng) int64 {
	switch r.Intn(9) {
	case 0:
		return int64(r.Intn(7)) - 3
	case 1:
		return -1 << 63
	case 2:
		return 1<<63 - 1
	case 3:
		return int64(1) << uint(r.Intn(63))
	case 4:
		return -(int64(1) << uint(r.Intn(63)))
	case 5:
		return int64(1)<<uint(r.Intn(62)+1) - 1
	case 6:
		return int64(int32(r.Uint64()))
	case 7:
		return int64(r.Intn(1000))
	}
	return r.Int64()
}

// blinding picks any integer.
func blinding(r *Rng) (string, *big.Int) {
	switch r.Intn(12) {
	case 0:
		return "0", I(0)
	case 1:
		return "1", I(1)
	case 2:
		return "-1", I(-1)
	case 3:
		return "order", new(big.Int).Set(order)
	case 4:
		return "order+1", new(big.Int).Add(order, I(1))
	case 5:
		return "order-1", new(big.Int).Sub(order, I(1))
	case 6:
		return "large", r.Bits(512)
	case 7:
		return "large negative", new(big.Int).Neg(r.Bits(512))
	case 8:
		return "small", r.Bits(20)
	case 9:
		return "2^256", Pow2(256)
	}
	return "uniform", r.Below(order)
}

func setSystem(c *C, s []int64) *zk.Set {
	var sys *zk.Set
	var err error
	if p := Call(func() { sys, err = zk.SetupSet(append([]int64(nil), s...)) }); p != nil || err != nil {
		c.Fail("SetupSet(%v): %v %v", s, err, p)
		return nil
	}
	return sys
}

func ulSystem(c *C, u, l int64) *zk.UL {
	var sys *zk.UL
	var err error
	if p := Call(func() { sys, err = zk.SetupUL(u, l) }); p != nil || err != nil {
		c.Fail("SetupUL(%d,%d): %v %v", u, l, err, p)
		return nil
	}
	return sys
}

func verifySet(s *zk.Set, p any) zk.Outcome {
	return zk.Do(func() (bool, error) { return s.Verify(p) })
}
func verifyUL(s *zk.UL, p any) zk.Outcome {
	return zk.Do(func() (bool, error) { return s.Verify(p) })
}

// proveSet and proveUL return why there is no proof.
func proveSet(s *zk.Set, x int64, r *big.Int) (pr any, why string) {
	var err error
	if p := Call(func() { pr, err = s.Prove(x, new(big.Int).Set(r)) }); p != nil {
		return nil, fmt.Sprint(p)
	}
	if err != nil {
		return nil, "error: " + err.Error()
	}
	return pr, ""
}

func proveUL(s *zk.UL, x, r *big.Int) (pr any, why string) {
	var err error
	if p := Call(func() { pr, err = s.Prove(new(big.Int).Set(x), new(big.Int).Set(r)) }); p != nil {
		return nil, fmt.Sprint(p)
	}
	if err != nil {
		return nil, "error: " + err.Error()
	}
	return pr, ""
}

func power(u, l int64) *big.Int { return new(big.Int).Exp(I(u), I(l), nil) }
