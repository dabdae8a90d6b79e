package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

type proof = bulletproofs.BulletProof
type params = bulletproofs.BulletProofSetupParams
type generic = bulletproofs.ProofBPRP

var sizes = []int{1, 2, 4, 8, 16, 32}

// rangeEnd is 2^n.
func rangeEnd(n int) int64 { return int64(1) << uint(n) }

func setup(c *C, n int) (params, bool) {
	var p params
	var err error
	if e := Call(func() { p, err = bulletproofs.Setup(rangeEnd(n)) }); e != nil || err != nil {
		c.Fail("Setup(2^%d): %v %v", n, err, e)
		return p, false
	}
	return p, true
}

// tryProve returns the proof, or why there is none.
func tryProve(x *big.Int, p params) (pr *proof, why string) {
	var err error
	var out proof
	if e := Call(func() { out, err = bulletproofs.Prove(new(big.Int).Set(x), p) }); e != nil {
		return nil, fmt.Sprint(e)
	}
	if err != nil {
		return nil, "error: " + err.Error()
	}
	return &out, ""
}

// prove makes a proof that must succeed.
func prove(c *C, x *big.Int, p params) *proof {
	pr, why := tryProve(x, p)
	if pr == nil {
		c.Fail("Prove(%s) for [0,2^%d): %s", x, p.N, why)
	}
	return pr
}

func verify(p *proof) zk.Outcome { return zk.Do(func() (bool, error) { return p.Verify() }) }
func verifyG(p generic) zk.Outcome {
	return zk.Do(func() (bool, error) { return p.Verify() })
}

func verifyPG(p *generic) zk.Outcome {
	return zk.Do(func() (bool, error) { return p.Verify() })
}

// honest makes a valid proof of a random secret; nil if that fails, which P01 reports.
func honest(c *C, n int) *proof {
	p, ok := setup(c, n)
	if !ok {
		return nil
	}
	return prove(c, c.R.Bits(n), p)
}

// secretsFor lists structured secrets in [0,2^n).
func secretsFor(r *Rng, n int, k int) *big.Int {
	top := new(big.Int).Sub(Pow2(n), I(1))
	var x *big.Int
	switch k % 12 {
	case 0:
		x = I(0)
	case 1:
		x = I(1)
	case 2:
		x = top
	case 3:
		x = Pow2(r.Intn(n))
	case 4:
		x = new(big.Int).Sub(Pow2(r.Intn(n)+1), I(1))
	case 5:
		x = new(big.Int).Sub(top, Pow2(r.Intn(n)))
	case 6:
		x = new(big.Int).Sub(Pow2(n), Pow2(r.Intn(n)))
	case 7: // alternating digits
		x = new(big.Int)
		for i := r.Intn(2); i < n; i += 2 {
			x.SetBit(x, i, 1)
		}
	case 8: // a run of ones
		a := r.Intn(n)
		b := a + r.Intn(n-a) + 1
		x = new(big.Int).Sub(Pow2(b), Pow2(a))
	default:
		x = r.Bits(n)
	}
	if x.Sign() < 0 || x.Cmp(top) > 0 {
		x = r.Bits(n)
	}
	return x
}

// randMode installs a random source for provers: uniform, biased to extremes, or constant.
func randMode(c *C, k int) string {
	switch k % 8 {
	case 5, 6:
		c.Install(1, ref.SecN)
		return "hostile"
	case 7:
		r := c.Install(2, ref.SecN)
		consts := []*big.Int{I(0), I(1), I(2), new(big.Int).Sub(ref.SecN, I(1)), Pow2(255), Pow2(8), new(big.Int).Rsh(ref.SecN, 1)}
		r.Const = consts[c.R.Intn(len(consts))]
		return "constant " + r.Const.Text(16)
	}
	c.Install(0, ref.SecN)
	return "uniform"
}

func shape(x *big.Int) string { return fmt.Sprint(x.BitLen(), popcount(x)) }

func popcount(x *big.Int) int {
	n := 0
	for i := 0; i < x.BitLen(); i++ {
		n += int(x.Bit(i))
	}
	return n
}

// pt is a random point with unknown relation to the generators.
func pt(c *C) *p256.P256 { return new(p256.P256).ScalarBaseMult(c.R.Below(ref.SecN)) }

func add(a, b *p256.P256) *p256.P256 { return new(p256.P256).Multiply(a, b) }
func neg(a *p256.P256) *p256.P256    { return new(p256.P256).Neg(a) }
func mul(a *p256.P256, k *big.Int) *p256.P256 {
	return new(p256.P256).ScalarMult(a, ModN(k))
}
func gmul(k *big.Int) *p256.P256 { return new(p256.P256).ScalarBaseMult(ModN(k)) }
func inf() *p256.P256            { return new(p256.P256).SetInfinity() }

// cp copies a point such that no coordinate is shared.
func cp(a *p256.P256) *p256.P256 { return Clone(a) }
