package main

import (
	"math/big"

	. "verif/harness/core"
	"verif/harness/zk"
)

// intervalFor chooses a small or large interval with room around it.
func intervalFor(c *C, k int) (a, b int64) {
	w := []int64{1, 10, 182, 1 << 16, 1<<32 - 1, 1 << 31, 1 << 32}[k%7]
	switch c.R.Intn(4) {
	case 0:
		a = 0
	case 1:
		a = 18
	case 2:
		a = -w / 2
	default:
		a = c.R.Int64() >> 2
	}
	return a, a + w
}

// sameGamma makes both halves with one blinding factor: the first draw of the random source
// is the same in both calls.
func halves(c *C, a, b int64, x *big.Int, label string) (generic, bool) {
	g, err := zk.SetupGeneric(a, b)
	if err != nil {
		c.Fail("SetupGeneric(%d,%d): %v", a, b, err)
		return generic{}, false
	}
	c.InstallSeeded(label)
	var pr generic
	if e := Call(func() { pr, err = g.Prove(x) }); e != nil || err != nil {
		c.Count("prover refused")
		return pr, false
	}
	return pr, true
}

// advHalf makes a valid bulletproof for [0,2^32) committing to v with blinding gamma.
func advHalf(c *C, p params, t transcript, v, gamma *big.Int) *proof {
	a := newAdv(c, p, t)
	a.v, a.gamma = ModN(v), gamma
	a.digits(ModN(v))
	a.inOrder()
	return a.assemble(a.ip())
}

func judgeHalves(c *C, name string, pr generic, ok bool) {
	o := verifyG(pr)
	c.Eval("halves", name, o.Kind(), ok)
	c.Count("combinations judged")
	c.Count("outcome " + o.Kind())
	if o.Accepted() != ok {
		c.Fail("%s, stated interval [%d,%d): verification says %s, expected %v", name, pr.A, pr.B, o, ok)
	}
}

var p09 = Prop{
	ID:   "P09",
	Rule: "halves of honest generic proofs recombined (different secrets, intervals, exchanged, doubled, altered statements of every single bound), and halves made by a dishonest prover that uses one blinding factor but different secrets, or a secret outside the interval; valid recombinations must verify. Oracle: what the commitments are known to open to. Distinct: (combination, expected and actual outcome).",
	Min:  40,
	Suites: []Suite{
		{"honest halves", 32, 400, func(c *C) {
			a, b := intervalFor(c, c.Idx)
			w := b - a
			x := new(big.Int).Add(bi(a), c.R.Below(bi(w)))
			y := new(big.Int).Add(bi(a), c.R.Below(bi(w)))
			if w == 1 {
				y = new(big.Int).Add(x, I(1))
			} else if x.Cmp(y) == 0 {
				y = bi(a)
				if x.Cmp(y) == 0 {
					y = bi(b - 1)
				}
			}
			px, ok1 := halves(c, a, b, x, "one stream")
			py, ok2 := halves(c, a, b, y, "one stream")
			if !ok1 || !ok2 || !verifyG(px).Accepted() {
				c.Count("no valid proofs to combine")
				return
			}
			mk := func(p1, p2 proof, A, B int64) generic {
				return *Clone(&generic{A: A, B: B, P1: p1, P2: p2})
			}
			judgeHalves(c, "as made", mk(px.P1, px.P2, a, b), true)
			judgeHalves(c, "second half of another secret", mk(px.P1, py.P2, a, b), false)
			judgeHalves(c, "first half of another secret", mk(py.P1, px.P2, a, b), false)
			judgeHalves(c, "halves exchanged", mk(px.P2, px.P1, a, b), w == 1<<32)
			judgeHalves(c, "first half twice", mk(px.P1, px.P1, a, b), w == 1<<32)
			judgeHalves(c, "second half twice", mk(px.P2, px.P2, a, b), w == 1<<32)
			// statements
			d := int64(c.R.Intn(1000) + 1)
			for name, ab := range map[string][2]int64{
				"upper bound raised": {a, b + d}, "upper bound lowered": {a, b - d}, "lower bound lowered": {a - d, b}, "lower bound raised": {a + d, b},
				"bounds exchanged": {b, a}, "widened": {a - d, b + d}, "narrowed": {a + d, b - d}, "bounds zero": {0, 0}, "negated": {-b, -a - d},
				"upper bound + 2^32": {a, b + 1<<32}, "lower bound - 2^32": {a - 1<<32, b}, "one more": {a, b + 1}, "one less": {a + 1, b},
			} {
				if ab[1]-ab[0] != w {
					judgeHalves(c, name, mk(px.P1, px.P2, ab[0], ab[1]), false)
				}
			}
			// the same proof is one about x+d in [a+d,b+d): the commitment is to an offset
			judgeHalves(c, "shifted statement", mk(px.P1, px.P2, a+d, b+d), true)
			c.Sample("[%d,%d) secrets %s %s", a, b, x, y)
		}},
		{"other intervals", 16, 200, func(c *C) {
			a, b := intervalFor(c, c.Idx)
			a2, b2 := a-int64(c.R.Intn(50)+1), b+int64(c.R.Intn(50))
			if b2-a2 > 1<<32 {
				a2, b2 = a+3, b-5
			}
			x := bi(a + (b-a)/2)
			if x.Cmp(bi(a2)) < 0 || x.Cmp(bi(b2)) >= 0 {
				a2 = a - 1
				b2 = a2 + 5
				if b2 <= a+(b-a)/2 {
					x = bi(a)
				}
			}
			p1, ok1 := halves(c, a, b, x, "one stream")
			p2, ok2 := halves(c, a2, b2, x, "one stream")
			if !ok1 || !ok2 {
				return
			}
			// with one blinding factor the halves prove x in [a2,b) and [a,b2)
			for _, k := range []struct {
				name   string
				p1, p2 proof
				A, B   int64
			}{
				{"first of one, second of the other, statement of one", p1.P1, p2.P2, a, b},
				{"first of one, second of the other, statement of the other", p1.P1, p2.P2, a2, b2},
				{"second of one, first of the other, statement of one", p2.P1, p1.P2, a, b},
				{"second of one, first of the other, statement of the other", p2.P1, p1.P2, a2, b2},
			} {
				// P1 opens to x - B1 + 2^32 and P2 to x - A2
				B1, A2 := b, a2
				if k.p1.Mu.Cmp(p2.P1.Mu) == 0 {
					B1, A2 = b2, a
				}
				if k.B-B1 == k.A-A2 {
					continue
				}
				judgeHalves(c, k.name, *Clone(&generic{A: k.A, B: k.B, P1: k.p1, P2: k.p2}), false)
			}
		}},
		{"dishonest halves", 24, 300, func(c *C) {
			a, b := intervalFor(c, c.Idx)
			p, ok := setup(c, 32)
			if !ok {
				return
			}
			hon := prove(c, c.R.Bits(32), p)
			if hon == nil {
				return
			}
			t, found := discover(hon, false)
			if !found {
				c.Count("transcript not recognized")
			}
			gamma := c.R.Below(order)
			e32 := Pow2(32)
			first := func(x *big.Int) *proof {
				return advHalf(c, p, t, new(big.Int).Add(new(big.Int).Sub(x, bi(b)), e32), gamma)
			}
			second := func(x *big.Int) *proof { return advHalf(c, p, t, new(big.Int).Sub(x, bi(a)), gamma) }
			mk := func(p1, p2 *proof) generic { return *Clone(&generic{A: a, B: b, P1: *p1, P2: *p2}) }
			x := new(big.Int).Add(bi(a), c.R.Below(bi(b-a)))
			own := mk(first(x), second(x))
			if !verifyG(own).Accepted() {
				c.Count("the harness's own honest proof is rejected")
				return
			}
			c.Eval("calibrated")
			c.Count("own honest proofs accepted")
			// secrets outside, each half about a secret that suits it
			above := new(big.Int).Add(bi(b), I(int64(c.R.Intn(100))))
			below := new(big.Int).Sub(bi(a), I(int64(c.R.Intn(100)+1)))
			judgeHalves(c, "above in the second half", mk(first(x), second(above)), false)
			judgeHalves(c, "below in the first half", mk(first(below), second(x)), false)
			judgeHalves(c, "above in both", mk(first(above), second(above)), false)
			judgeHalves(c, "below in both", mk(first(below), second(below)), false)
			x2 := new(big.Int).Add(x, I(1))
			if x2.Cmp(bi(b)) >= 0 {
				x2.Sub(x2, I(2))
			}
			judgeHalves(c, "different secrets", mk(first(x), second(x2)), false)
			// one commitment is the other shifted, with an invalid proof
			p1, p2 := first(above), second(above)
			p1.V = add(p2.V, gmul(new(big.Int).Sub(new(big.Int).Add(bi(a), e32), bi(b))))
			judgeHalves(c, "commitment linked, first half invalid", mk(p1, p2), false)
			p1, p2 = first(below), second(below)
			p2.V = add(p1.V, gmul(new(big.Int).Sub(new(big.Int).Sub(bi(b), e32), bi(a))))
			judgeHalves(c, "commitment linked, second half invalid", mk(p1, p2), false)
			bad1, bad2 := Clone(&own.P1), Clone(&own.P2)
			bad1.Tprime = fa(bad1.Tprime, I(1))
			judgeHalves(c, "first half altered", mk(bad1, &own.P2), false)
			bad2.Tprime = fa(bad2.Tprime, I(1))
			judgeHalves(c, "second half altered", mk(&own.P1, bad2), false)
			judgeHalves(c, "both halves altered", mk(bad1, bad2), false)
			judgeHalves(c, "empty halves", generic{A: a, B: b}, false)
			judgeHalves(c, "empty first half", generic{A: a, B: b, P2: own.P2}, false)
			judgeHalves(c, "empty second half", generic{A: a, B: b, P1: own.P1}, false)
			// inverse commitments: the link must not be up to sign
			q1, q2 := advHalf(c, p, t, fneg(new(big.Int).Sub(x, bi(b))), fneg(gamma)), second(x)
			judgeHalves(c, "inverse commitment in the first half", mk(q1, q2), false)
		}},
	},
}
