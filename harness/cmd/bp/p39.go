package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

// opensBP checks that V commits to x. V/g^x must be h^gamma for a draw gamma, or the same
// for two secrets that are committed to with the same random numbers (other is V for
// otherX, then).
func opensBP(c *C, what string, V *p256.P256, h *p256.P256, x *big.Int, draws []*big.Int, other *p256.P256, otherX *big.Int) (gamma *big.Int) {
	rest := add(V, neg(gmul(x)))
	for _, d := range draws {
		if PStr(rest) == PStr(mul(h, d)) {
			gamma = d
			break
		}
	}
	same := other != nil && PStr(rest) == PStr(add(other, neg(gmul(otherX))))
	c.Count("openings checked")
	if gamma == nil {
		c.Count("blinding not among the draws")
		if other != nil && !same {
			c.Fail("%s: V does not open to the secret %s: V/g^x is h^d for no draw d, and not what it is for the secret %s with the same random numbers", what, x, otherX)
		}
	}
	return gamma
}

// opensG2 checks C = g^x h^r with the model of G2.
func opensG2(c *C, what string, C any, h *bn256.G2, x, r *big.Int) bool {
	p, ok := C.(*bn256.G2)
	if !ok || p == nil || h == nil {
		c.Count("commitment not found")
		return true
	}
	c.Count("openings checked")
	want := new(bn256.G2).Add(new(bn256.G2).ScalarBaseMult(ModB(x)), new(bn256.G2).ScalarMult(h, ModB(r)))
	if ModB(r).Sign() == 0 && ModB(x).Sign() == 0 {
		want = new(bn256.G2).SetInfinity()
	}
	if fmt.Sprintf("%x", p.Marshal()) != fmt.Sprintf("%x", want.Marshal()) {
		c.Fail("%s: the commitment is not g^x h^r for x = %s, r = %s", what, x, r)
		return false
	}
	return true
}

// blindingFor picks any integer.
func blindingFor(c *C, k int) *big.Int {
	switch k % 12 {
	case 0:
		return I(0)
	case 1:
		return I(1)
	case 2:
		return I(-1)
	case 3:
		return new(big.Int).Set(ref.BnN)
	case 4:
		return new(big.Int).Add(ref.BnN, I(int64(c.R.Intn(5))-2))
	case 5:
		return c.R.Bits(512)
	case 6:
		return new(big.Int).Neg(c.R.Bits(300))
	case 7:
		return Pow2(c.R.Intn(260))
	case 8:
		return new(big.Int).Mul(ref.BnN, I(int64(c.R.Intn(7))-3))
	case 9:
		return I(int64(c.R.Intn(1 << 20)))
	}
	return c.R.Below(ref.BnN)
}

func setOpening(c *C) {
	n := 1 + c.R.Intn(4)
	set := make([]int64, n)
	for i := range set {
		switch c.R.Intn(4) {
		case 0:
			set[i] = c.R.Int64()
		case 1:
			set[i] = -1 - int64(c.R.Intn(100))
		case 2:
			set[i] = []int64{0, 1, -1, 1<<63 - 1, -1 << 63, 1 << 32, 1<<31 - 1, 1 << 53, 1<<53 + 1}[c.R.Intn(9)]
		default:
			set[i] = int64(c.R.Intn(1000))
		}
	}
	s, err := zk.SetupSet(append([]int64(nil), set...))
	if err != nil {
		c.Fail("SetupSet(%v): %v", set, err)
		return
	}
	h, _ := Get[*bn256.G2](s.P, "H")
	for t := 0; t < 4; t++ {
		x, r := set[c.R.Intn(n)], blindingFor(c, c.Idx*4+t)
		pr, err := s.Prove(x, new(big.Int).Set(r))
		if err != nil {
			c.Fail("ProveSet(%d): %v", x, err)
			return
		}
		C, _ := Get[*bn256.G2](pr, "C")
		opensG2(c, "set proof", C, h, I(x), r)
		c.Eval("set", x < 0, x == 0, r.Sign(), r.Cmp(ref.BnN), r.BitLen()/16)
	}
}

func ulOpening(c *C) {
	u, l := int64(2+c.R.Intn(9)), int64(1+c.R.Intn(5))
	s, err := zk.SetupUL(u, l)
	if err != nil {
		c.Fail("SetupUL(%d,%d): %v", u, l, err)
		return
	}
	h, _ := Get[*bn256.G2](s.P, "H")
	ul := new(big.Int).Exp(I(u), I(l), nil)
	for t := 0; t < 3; t++ {
		x := c.R.Below(ul)
		if t == 0 {
			x = []*big.Int{I(0), I(1), new(big.Int).Sub(ul, I(1)), I(u - 1)}[c.R.Intn(4)]
		}
		r := blindingFor(c, c.Idx*3+t)
		pr, err := s.Prove(new(big.Int).Set(x), new(big.Int).Set(r))
		if err != nil {
			c.Fail("ProveUL(%s): %v", x, err)
			return
		}
		C, _ := Get[*bn256.G2](pr, "C")
		opensG2(c, "UL proof", C, h, x, r)
		c.Eval("ul", u, l, t == 0, r.Sign(), r.Cmp(ref.BnN), r.BitLen()/16)
	}
}

func intervalOpening(c *C) {
	a := int64(c.R.Intn(4000)) - 2000
	b := a + 1 + int64(c.R.Intn(5000))
	if b < 2 {
		b = 2 + int64(c.R.Intn(60))
	}
	iv := zk.NewInterval()
	if err := iv.Setup(a, b); err != nil {
		c.Fail("Setup(%d,%d): %v", a, b, err)
		return
	}
	u, l, ok := iv.UL().Size()
	h, _ := Get[*bn256.G2](iv.UL().P, "H")
	if !ok || h == nil {
		c.Count("parameters not recognized")
		return
	}
	for t := 0; t < 2; t++ {
		x := new(big.Int).Add(I(a), c.R.Below(I(b-a)))
		if t == 1 {
			x = []*big.Int{I(a), I(b - 1)}[c.R.Intn(2)]
		}
		r := blindingFor(c, c.Idx*2+t)
		if err := iv.Prove(new(big.Int).Set(x), new(big.Int).Set(r)); err != nil {
			c.Fail("Prove(%s): %v", x, err)
			return
		}
		C1, _ := Get[*bn256.G2](iv.Half(0), "C")
		C2, _ := Get[*bn256.G2](iv.Half(1), "C")
		xb := new(big.Int).Sub(x, I(b))
		xb.Add(xb, new(big.Int).Exp(I(u), I(l), nil))
		opensG2(c, fmt.Sprintf("first half for %s in [%d,%d)", x, a, b), C1, h, xb, r)
		opensG2(c, fmt.Sprintf("second half for %s in [%d,%d)", x, a, b), C2, h, new(big.Int).Sub(x, I(a)), r)
		c.Eval("interval", a < 0, b < 0, t, r.Sign(), r.Cmp(ref.BnN), r.BitLen()/16)
	}
}

func bpOpening(c *C, n int) {
	p, ok := setup(c, n)
	if !ok {
		return
	}
	var last *p256.P256
	var lastX *big.Int
	for t := 0; t < 3; t++ {
		x := secretsFor(c.R, n, c.Idx+t*5)
		rec := c.InstallSeeded("opening")
		pr := prove(c, x, p)
		if pr == nil {
			return
		}
		opensBP(c, fmt.Sprintf("proof of %s in [0,2^%d)", x, n), pr.V, p.H, x, rec.Scalars(ref.SecN), last, lastX)
		last, lastX = pr.V, x
		c.Eval("bulletproof", n, shape(x))
	}
}

func genericOpening(c *C) {
	a := c.R.Bits(1+c.R.Intn(40)).Int64() - c.R.Bits(1+c.R.Intn(40)).Int64()
	b := a + 1 + c.R.Bits(1+c.R.Intn(32)).Int64()
	if b-a > 1<<32 {
		b = a + 1<<32
	}
	g, err := zk.SetupGeneric(a, b)
	if err != nil {
		c.Fail("SetupGeneric(%d,%d): %v", a, b, err)
		return
	}
	var last [2]*p256.P256
	var lastX [2]*big.Int
	for t := 0; t < 2; t++ {
		x := new(big.Int).Add(I(a), c.R.Below(I(b-a)))
		if c.R.Intn(3) == 0 {
			x = []*big.Int{I(a), I(b - 1)}[c.R.Intn(2)]
		}
		rec := c.InstallSeeded("opening")
		pr, err := g.Prove(new(big.Int).Set(x))
		if err != nil {
			c.Fail("ProveGeneric(%s): %v", x, err)
			return
		}
		x1 := new(big.Int).Add(new(big.Int).Sub(x, I(b)), Pow2(32))
		x2 := new(big.Int).Sub(x, I(a))
		d := rec.Scalars(ref.SecN)
		what := fmt.Sprintf("%s half of the proof of %s in [%d,%d)", "%s", x, a, b)
		g1 := opensBP(c, fmt.Sprintf(what, "first"), pr.P1.V, pr.P1.Params.H, x1, d, last[0], lastX[0])
		g2 := opensBP(c, fmt.Sprintf(what, "second"), pr.P2.V, pr.P2.Params.H, x2, d, last[1], lastX[1])
		if g1 != nil && g2 != nil && g1.Cmp(g2) != 0 {
			c.Fail(what+" is blinded by another number than the first", "second")
		}
		// whatever the blinding is, it must be the same
		if PStr(add(pr.P1.V, neg(gmul(x1)))) != PStr(add(pr.P2.V, neg(gmul(x2)))) {
			c.Fail("the halves of the proof of %s in [%d,%d) do not commit to x-b+2^32 and x-a with one blinding factor", x, a, b)
		}
		last, lastX = [2]*p256.P256{pr.P1.V, pr.P2.V}, [2]*big.Int{x1, x2}
		c.Eval("generic", a < 0, b < 0, t, new(big.Int).Sub(I(b), I(a)).BitLen())
	}
}

var p39 = Prop{
	ID:     "P39",
	Level:  "exploration",
	Rule:   "the commitment in each proof is opened with the secret, and the blinding factor that the caller gave or the recorded random source delivered",
	Assume: []string{"group operations are right (P19, P22)"},
	Min:    40,
	Suites: []Suite{
		{"bulletproof", 48, 600, func(c *C) { bpOpening(c, sizes[c.Idx%6]) }},
		{"generic", 16, 160, genericOpening},
		{"set", 48, 800, setOpening},
		{"ul", 40, 600, ulOpening},
		{"interval", 16, 200, intervalOpening},
	},
}
