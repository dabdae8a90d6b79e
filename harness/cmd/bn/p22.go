package main

import (
	"crypto/rand"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	. "verif/harness/core"
	"verif/harness/ref"
)

// checkPair compares a+b and b+a in all aliasings with the model.
func checkPair(c *C, g grp, ka, kb *big.Int, ra, rb int, want string) {
	a, b := element(c, g, ka, ra), element(c, g, kb, rb)
	ea, eb := g.enc(a), g.enc(b)
	cl := cls(ka, kb)
	for alias := 0; alias < 3; alias++ {
		x, y := clone(g, a), clone(g, b)
		var r any
		switch alias {
		case 0:
			r = g.new()
			if c.R.Bool() {
				r = g.base(I(7))
			}
		case 1:
			r = x
		case 2:
			r = y
		}
		var out any
		if p := Call(func() { out = g.add(r, x, y) }); p != nil {
			c.Fail("%s Add(base^%s rep %d, base^%s rep %d) alias %d: %v", g.name(), ka, ra, kb, rb, alias, p)
			continue
		}
		c.Eval("add", g.name(), cl, ra, rb, alias)
		c.Count("group operations compared")
		if e := g.enc(out); e != want {
			c.Fail("%s: base^%s + base^%s [%s, reps %d %d, alias %d] = %s, want %s", g.name(), ka, kb, cl, ra, rb, alias, e, want)
		}
		if e := g.enc(r); e != want {
			c.Fail("%s: receiver of Add(base^%s, base^%s) [%s, reps %d %d, alias %d] is %s", g.name(), ka, kb, cl, ra, rb, alias, e)
		}
		if alias != 1 && g.enc(x) != ea || alias != 2 && g.enc(y) != eb {
			c.Fail("%s: Add(base^%s, base^%s) changed an operand (alias %d)", g.name(), ka, kb, alias)
		}
		s := new(big.Int).Add(ka, kb)
		if g.isZero(out) != (s.Mod(s, ref.BnN).Sign() == 0) {
			c.Fail("%s: IsZero(base^%s+base^%s) = %v", g.name(), ka, kb, g.isZero(out))
		}
	}
	if cl == "equal" || cl == "inf+inf" {
		x := clone(g, a)
		out := g.add(x, x, x)
		c.Eval("double in place", g.name(), ra, cl)
		if g.enc(out) != want {
			c.Fail("%s: x.Add(x,x) for x=base^%s rep %d is %s, want %s", g.name(), ka, ra, g.enc(out), want)
		}
		y := clone(g, a)
		out = g.add(g.new(), y, y)
		if g.enc(out) != want {
			c.Fail("%s: Add(x,x) for x=base^%s rep %d is %s, want %s", g.name(), ka, ra, g.enc(out), want)
		}
	}
}

func checkNeg(c *C, g grp, k *big.Int, r int) {
	want := g.model(expNeg(k))
	a := element(c, g, k, r)
	ea := g.enc(a)
	for alias := 0; alias < 2; alias++ {
		x := clone(g, a)
		d := g.new()
		if alias == 1 {
			d = x
		} else if c.R.Bool() {
			d = g.base(I(5))
		}
		var out any
		if p := Call(func() { out = g.neg(d, x) }); p != nil {
			c.Fail("%s Neg(base^%s rep %d) alias %d: %v", g.name(), k, r, alias, p)
			continue
		}
		c.Eval("neg", g.name(), r, alias, k.Sign() == 0)
		c.Count("group operations compared")
		if g.enc(out) != want || g.enc(d) != want {
			c.Fail("%s: Neg(base^%s rep %d) alias %d = %s, want %s", g.name(), k, r, alias, g.enc(out), want)
		}
		if alias == 0 && g.enc(x) != ea {
			c.Fail("%s: Neg changed its operand", g.name())
		}
		// the negation must be usable: x + (-x) = 0
		z := g.add(g.new(), out, a)
		if !g.isZero(z) {
			c.Fail("%s: x + Neg(x) is not the identity for x=base^%s rep %d alias %d", g.name(), k, r, alias)
		}
	}
}

func checkMul(c *C, g grp, ka, k *big.Int, r int, label string) {
	e := new(big.Int).Mul(ka, k)
	want := g.model(e)
	a := element(c, g, ka, r)
	ea := g.enc(a)
	for alias := 0; alias < 2; alias++ {
		x := clone(g, a)
		d := g.new()
		if alias == 1 {
			d = x
		} else if c.R.Bool() {
			d = g.base(I(11))
		}
		kk := new(big.Int).Set(k)
		var out any
		if p := Call(func() { out = g.mul(d, x, kk) }); p != nil {
			c.Fail("%s ScalarMult(base^%s rep %d, %s) alias %d: %v", g.name(), ka, r, k, alias, p)
			continue
		}
		c.Eval("mul", g.name(), label, r, alias, k.Sign(), k.Cmp(ref.BnN), (k.BitLen()+7)/8)
		c.Count("scalar multiplications compared")
		if g.enc(out) != want || g.enc(d) != want {
			c.Fail("%s: ScalarMult(base^%s rep %d, %s) alias %d = %s, want %s", g.name(), ka, r, k, alias, g.enc(out), want)
		}
		if g.isZero(out) != (new(big.Int).Mod(e, ref.BnN).Sign() == 0) {
			c.Fail("%s: IsZero(ScalarMult(base^%s rep %d, %s)) = %v", g.name(), ka, r, k, g.isZero(out))
		}
		if kk.Cmp(k) != 0 || alias == 0 && g.enc(x) != ea {
			c.Fail("%s: ScalarMult changed an operand", g.name())
		}
	}
	if ka.Cmp(I(1)) == 0 {
		d := g.new()
		if c.R.Bool() {
			d = g.base(I(3))
		}
		var out any
		if p := Call(func() { out = g.baseTo(d, k) }); p != nil {
			c.Fail("%s ScalarBaseMult(%s): %v", g.name(), k, p)
		} else if g.enc(out) != want || g.enc(d) != want {
			c.Fail("%s: ScalarBaseMult(%s) = %s, want %s", g.name(), k, g.enc(out), want)
		}
		c.Eval("base", g.name(), label, k.Sign(), k.Cmp(ref.BnN), (k.BitLen()+7)/8)
	}
}

var p22 = Prop{
	ID:   "P22",
	Rule: "all pairs of small multiples of the generators and pairs with equal, opposite or identity values, each operand in five representations (ladder output, decoded, sums with other Jacobian coordinates, negation of a decoded point), every aliasing of the receiver; hostile scalars; random programs over registers. Each result is compared with an affine model through its encoding. Distinct: operation, group, operand class, representations, aliasing, scalar class.",
	Min:  100,
	Suites: []Suite{
		{"pairs", 48, 48, func(c *C) {
			w := int64(4)
			if c.Thorough() {
				w = 9
			}
			n := 0
			for _, g := range groups {
				for i := -w; i <= w; i++ {
					for j := -w; j <= w; j++ {
						n++
						if n%c.N == c.Idx {
							checkPair(c, g, I(i), I(j), c.R.Intn(nReps), c.R.Intn(nReps), smallModel(g, i+j))
							if i == j || i == -j {
								for ra := 0; ra < nReps; ra++ {
									checkPair(c, g, I(i), I(j), ra, c.R.Intn(nReps), smallModel(g, i+j))
								}
							}
						}
					}
				}
			}
			c.Sample("pairs (base^i, base^j), |i|,|j| <= %d, shard %d of %d", w, c.Idx, c.N)
		}},
		{"special", 240, 4000, func(c *C) {
			g := groups[c.Idx%2]
			for n := 0; n < 3; n++ {
				ka := expo(c)
				kb := expo(c, ka)
				checkPair(c, g, ka, kb, c.R.Intn(nReps), c.R.Intn(nReps), g.model(new(big.Int).Add(ka, kb)))
				checkNeg(c, g, ka, c.R.Intn(nReps))
				c.Sample("%s: base^%s with base^%s", g.name(), ka, kb)
			}
		}},
		{"scalars", 320, 4800, func(c *C) {
			g := groups[c.Idx%2]
			for n := 0; n < 4; n++ {
				ka := I(1)
				if n%2 == 1 {
					ka = expo(c)
				}
				k := c.R.Scalar(ref.BnN)
				checkMul(c, g, ka, k, c.R.Intn(nReps), "hostile")
				c.Sample("%s: (base^%s)^%s", g.name(), ka, k)
			}
		}},
		{"fixed scalars", 32, 32, func(c *C) {
			var ks []*big.Int
			for _, m := range []int64{0, 1, 2} {
				b := new(big.Int).Mul(ref.BnN, I(m))
				for d := int64(-3); d <= 3; d++ {
					x := new(big.Int).Add(b, I(d))
					ks = append(ks, x, expNeg(x))
				}
			}
			step := 16
			if c.Thorough() {
				step = 3
			}
			for b := 0; b <= 270; b += step {
				ks = append(ks, Pow2(b), new(big.Int).Sub(Pow2(b), I(1)), expNeg(Pow2(b)))
			}
			ks = append(ks, new(big.Int).Rsh(ref.BnN, 1), ref.BnP)
			for i, k := range ks {
				if i%c.N == c.Idx {
					for _, g := range groups {
						checkMul(c, g, I(1), k, c.R.Intn(nReps), "fixed")
						checkMul(c, g, expo(c), k, c.R.Intn(nReps), "fixed")
					}
				}
			}
		}},
		{"programs", 160, 2400, func(c *C) {
			g := groups[c.Idx%2]
			const n = 5
			var reg [n]any
			var mod [n]*big.Int
			for i := range reg {
				mod[i] = expo(c, mod[:i]...)
				reg[i] = element(c, g, mod[i], c.R.Intn(nReps))
			}
			trace := ""
			for step := 0; step < 14; step++ {
				d, a, b := c.R.Intn(n), c.R.Intn(n), c.R.Intn(n)
				op := c.R.Intn(6)
				k := c.R.Scalar(ref.BnN)
				if c.R.Bool() {
					k = I(int64(c.R.Intn(9) - 4))
				}
				p := Call(func() {
					switch op {
					case 0, 1, 2:
						trace += fmt.Sprintf("r%d=r%d+r%d;", d, a, b)
						g.add(reg[d], reg[a], reg[b])
						mod[d] = new(big.Int).Add(mod[a], mod[b])
					case 3:
						trace += fmt.Sprintf("r%d=-r%d;", d, a)
						g.neg(reg[d], reg[a])
						mod[d] = expNeg(mod[a])
					case 4:
						trace += fmt.Sprintf("r%d=r%d^%s;", d, a, k)
						g.mul(reg[d], reg[a], k)
						mod[d] = new(big.Int).Mul(mod[a], k)
					case 5:
						trace += fmt.Sprintf("r%d=enc(r%d);", d, a)
						x, ok := g.dec(raw(g.enc(reg[a])))
						if !ok {
							panic("cannot decode " + g.enc(reg[a]))
						}
						reg[d] = x
						mod[d] = mod[a]
					}
					mod[d] = new(big.Int).Mod(mod[d], ref.BnN)
				})
				c.Eval("program", g.name(), op, d == a, d == b, a == b, mod[d].Sign() == 0)
				c.Count("program steps")
				if p != nil {
					c.Fail("%s %s: %v", g.name(), trace, p)
					return
				}
			}
			for i := range reg {
				c.Count("group operations compared")
				if g.enc(reg[i]) != g.model(mod[i]) {
					c.Fail("%s: register r%d is not base^%s after %s", g.name(), i, mod[i], trace)
				}
			}
			c.Sample("%s %.150s", g.name(), trace)
		}},
		{"order", 16, 60, func(c *C) {
			g := groups[c.Idx%2]
			for n := 0; n < 3; n++ {
				x := element(c, g, expo(c), c.R.Intn(nReps))
				z := g.mul(g.new(), x, ref.BnN)
				c.Eval("order", g.name(), c.Idx)
				if !g.isZero(z) || g.enc(z) != smallModel(g, 0) {
					c.Fail("%s: Order times an element is not the identity", g.name())
				}
				if bn256.Order.Cmp(ref.BnN) != 0 || bn256.P.Cmp(ref.BnP) != 0 {
					c.Fail("the group constants changed")
				}
				var k *big.Int
				var err error
				var e string
				rec := c.Install(1, ref.BnN)
				if g.name() == "G1" {
					var p *bn256.G1
					k, p, err = bn256.RandomG1(rand.Reader)
					if err == nil {
						e = g.enc(p)
					}
				} else {
					var p *bn256.G2
					k, p, err = bn256.RandomG2(rand.Reader)
					if err == nil {
						e = g.enc(p)
					}
				}
				if err != nil || k.Sign() <= 0 || k.Cmp(ref.BnN) >= 0 || e != g.model(k) {
					c.Fail("%s: Random returned %v, %s, which is not (k, base^k), k in (0,Order): %v", g.name(), k, e, err)
				}
				_ = rec
			}
		}},
	},
}
