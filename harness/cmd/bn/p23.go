package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/ref"
)

func gtHex(x *bn256.GT) string { return fmt.Sprintf("%x", x.Marshal()) }

var oneHex = fmt.Sprintf("%x", ref.F12One().Bytes())

// eHex is e(g1,g2), the base of the target group, as the model reads it.
func eModel() ref.F12 { return ref.F12FromBytes(util.E.Marshal()) }

var powCache map[string]string

// ePow is e(g1,g2)^k by the model.
func ePow(k *big.Int) string {
	if powCache == nil {
		powCache = map[string]string{}
	}
	k = new(big.Int).Mod(k, ref.BnN)
	s, ok := powCache[k.String()]
	if !ok {
		s = fmt.Sprintf("%x", eModel().Pow(k).Bytes())
		powCache[k.String()] = s
	}
	return s
}

func g1el(c *C, k *big.Int, r int) *bn256.G1 { return element(c, g1{}, k, r).(*bn256.G1) }
func g2el(c *C, k *big.Int, r int) *bn256.G2 { return element(c, g2{}, k, r).(*bn256.G2) }

var p23 = Prop{
	ID:   "P23",
	Rule: "pairs (g1^a, g2^b) for hostile and related integers a, b, each argument in five representations; the result is compared with e(g1,g2)^(ab) computed by schoolbook arithmetic in another basis of GF(p^12), with an independent evaluation of the pairing by affine line functions, and with the products that bilinearity demands; PairingCheck on lists of 0 to 40 pairs with known product, identities included. Distinct: classes of a, b, representations, list length, place of identities, verdict.",
	Min:  60,
	Suites: []Suite{
		{"bilinear", 96, 1600, func(c *C) {
			for n := 0; n < 2; n++ {
				a := c.R.Scalar(ref.BnN)
				b := c.R.Scalar(ref.BnN)
				if c.R.Intn(3) == 0 {
					a, b = expo(c), expo(c)
				}
				ra, rb := c.R.Intn(nReps), c.R.Intn(nReps)
				p, q := g1el(c, a, ra), g2el(c, b, rb)
				before := g1{}.enc(p) + g2{}.enc(q)
				var r *bn256.GT
				if e := Call(func() { r = bn256.Pair(p, q) }); e != nil {
					c.Fail("Pair(g1^%s rep %d, g2^%s rep %d): %v", a, ra, b, rb, e)
					continue
				}
				if (g1{}).enc(p)+(g2{}).enc(q) != before {
					c.Fail("Pair changed its arguments")
				}
				ab := new(big.Int).Mul(a, b)
				c.Eval("pair", a.Sign(), b.Sign(), ra, rb, a.Cmp(ref.BnN), b.Cmp(ref.BnN))
				c.Count("pairings compared")
				if gtHex(r) != ePow(ab) {
					c.Fail("Pair(g1^%s rep %d, g2^%s rep %d) is not e(g1,g2)^(ab)", a, ra, b, rb)
				}
				zero := new(big.Int).Mod(ab, ref.BnN).Sign() == 0
				if r.IsOne() != zero {
					c.Fail("Pair(g1^%s, g2^%s).IsOne() = %v", a, b, r.IsOne())
				}
				// every representation gives the same value
				for k := 0; k < 2; k++ {
					x, y := c.R.Intn(nReps), c.R.Intn(nReps)
					s := bn256.Pair(g1el(c, a, x), g2el(c, b, y))
					c.Eval("rep", x, y)
					if gtHex(s) != gtHex(r) {
						c.Fail("Pair(g1^%s, g2^%s) depends on the representation (%d %d / %d %d)", a, b, ra, rb, x, y)
					}
				}
				c.Sample("Pair(g1^%s, g2^%s)", a, b)
			}
		}},
		{"independent", 32, 400, func(c *C) {
			a, b := expo(c), expo(c)
			if c.Idx == 0 {
				a, b = I(1), I(1)
			}
			x := ref.Bn.Mul(ref.BnG1, new(big.Int).Mod(a, ref.BnN))
			y := ref.BnG2.Mul(new(big.Int).Mod(b, ref.BnN))
			r, s := c.R.Intn(nReps), c.R.Intn(nReps)
			got := bn256.Pair(g1el(c, a, r), g2el(c, b, s))
			c.Eval("independent", a.Sign(), b.Sign(), r, s)
			c.Count("pairings compared with affine line functions")
			if gtHex(got) != fmt.Sprintf("%x", ref.Pair(x, y).Bytes()) {
				c.Fail("Pair(g1^%s, g2^%s) differs from the independent evaluation", a, b)
			}
		}},
		{"multiplicative", 48, 600, func(c *C) {
			a, b, d := expo(c), expo(c), expo(c)
			if c.R.Bool() {
				b = expo(c, a)
			}
			r := func() int { return c.R.Intn(nReps) }
			pa, pb, q := g1el(c, a, r()), g1el(c, b, r()), g2el(c, d, r())
			s := bn256.Pair(new(bn256.G1).Add(pa, pb), q)
			t := new(bn256.GT).Add(bn256.Pair(pa, q), bn256.Pair(pb, q))
			c.Eval("left", cls(a, b), d.Sign())
			if gtHex(s) != gtHex(t) {
				c.Fail("Pair(g1^%s+g1^%s, g2^%s) is not the product of the pairings", a, b, d)
			}
			qa, qb, p := g2el(c, a, r()), g2el(c, b, r()), g1el(c, d, r())
			s = bn256.Pair(p, new(bn256.G2).Add(qa, qb))
			t = new(bn256.GT).Add(bn256.Pair(p, qa), bn256.Pair(p, qb))
			c.Eval("right", cls(a, b), d.Sign())
			if gtHex(s) != gtHex(t) {
				c.Fail("Pair(g1^%s, g2^%s+g2^%s) is not the product of the pairings", d, a, b)
			}
			s = bn256.Pair(new(bn256.G1).Neg(p), qa)
			t = bn256.Pair(p, new(bn256.G2).Neg(qa))
			u := new(bn256.GT).Invert(bn256.Pair(p, qa))
			c.Eval("inverse", a.Sign(), d.Sign())
			if gtHex(s) != gtHex(t) || gtHex(s) != gtHex(u) {
				c.Fail("Pair(-g1^%s, g2^%s) is not the inverse of the pairing", d, a)
			}
			c.CountN("pairings compared", 9)
		}},
		{"degenerate", 12, 60, func(c *C) {
			one := new(bn256.GT).ScalarMult(util.E, I(1))
			if one.IsOne() || gtHex(one) == oneHex {
				c.Fail("e(g1,g2) is the identity")
			}
			m := eModel()
			if !m.Pow(ref.BnN).Equal(ref.F12One()) {
				c.Fail("e(g1,g2)^Order is not 1")
			}
			if gtHex(bn256.Pair(new(bn256.G1).ScalarBaseMult(I(1)), new(bn256.G2).ScalarBaseMult(I(1)))) != gtHex(one) {
				c.Fail("util.E is not e(g1,g2)")
			}
			c.Eval("order", c.Idx)
			for r := 0; r < nReps; r++ {
				for s := 0; s < nReps; s++ {
					k := c.R.Below(ref.BnN)
					for w := 0; w < 3; w++ {
						a, b := k, I(0)
						if w == 1 {
							a, b = I(0), k
						} else if w == 2 {
							a = I(0)
						}
						p, q := g1el(c, a, r), g2el(c, b, s)
						if c.Idx%3 == 0 && a.Sign() == 0 {
							p = new(bn256.G1).SetInfinity()
						}
						if c.Idx%3 == 0 && b.Sign() == 0 {
							q = new(bn256.G2).SetInfinity()
						}
						if c.Idx%3 == 1 && b.Sign() == 0 {
							t := new(bn256.G2).ScalarBaseMult(k)
							q = new(bn256.G2).Add(t, new(bn256.G2).Neg(t))
						}
						x := bn256.Pair(p, q)
						c.Eval("identity", r, s, w)
						c.Count("pairings compared")
						if !x.IsOne() || gtHex(x) != oneHex {
							c.Fail("Pair(g1^%s rep %d, g2^%s rep %d) is not 1", a, r, b, s)
						}
					}
				}
				if !c.Thorough() && r%3 == c.Idx%3 {
					continue
				}
			}
		}},
		{"PairingCheck", 190, 2700, func(c *C) {
			n := c.Idx % 7
			if c.Idx%6 == 5 {
				n = 7 + c.Idx/6%34
			}
			as, bs := make([]*bn256.G1, n), make([]*bn256.G2, n)
			sum := new(big.Int)
			desc := ""
			balanced := c.R.Intn(3) > 0
			for i := 0; i < n; i++ {
				a, b := expo(c), expo(c)
				if c.R.Intn(4) == 0 {
					a = I(0)
				}
				if c.R.Intn(4) == 0 {
					b = I(0)
				}
				if balanced && i == n-1 {
					if c.R.Bool() && b.Sign() != 0 {
						inv := new(big.Int).ModInverse(new(big.Int).Mod(b, ref.BnN), ref.BnN)
						if inv != nil {
							a = new(big.Int).Mul(expNeg(sum), inv)
							a.Mod(a, ref.BnN)
						}
					} else if inv := new(big.Int).ModInverse(new(big.Int).Mod(a, ref.BnN), ref.BnN); inv != nil {
						b = new(big.Int).Mul(expNeg(sum), inv)
						b.Mod(b, ref.BnN)
					}
				}
				sum.Add(sum, new(big.Int).Mul(a, b))
				as[i], bs[i] = g1el(c, a, c.R.Intn(nReps)), g2el(c, b, c.R.Intn(nReps))
				desc += fmt.Sprintf("(%s,%s)", a, b)
				if a.Sign() == 0 || b.Sign() == 0 {
					desc += "0"
				}
			}
			want := new(big.Int).Mod(sum, ref.BnN).Sign() == 0
			var got bool
			p := Call(func() { got = bn256.PairingCheck(as, bs) })
			c.Eval("check", n, want, len(desc)%5)
			c.Count("pairing checks compared")
			if p != nil || got != want {
				c.Fail("PairingCheck of %s = %v, want %v (%v)", desc, got, want, p)
			}
			c.Sample("PairingCheck of %d pairs = %v", n, want)
		}},
	},
}

var p24 = Prop{
	ID:   "P24",
	Rule: "elements e(g1,g2)^k as pairing outputs, decoded elements and results of operations; hostile exponents; every operation compared with schoolbook arithmetic modulo w^12-18w^6+82, every aliasing of the receiver; random programs. Distinct: operation, aliasing, operand class, exponent class.",
	Min:  60,
	Suites: []Suite{
		{"operations", 120, 2000, func(c *C) {
			for n := 0; n < 3; n++ {
				ka, kb := expo(c), expo(c)
				if c.R.Bool() {
					kb = expo(c, ka)
				}
				a, b := gtEl(c, ka), gtEl(c, kb)
				ma, mb := ref.F12FromBytes(a.Marshal()), ref.F12FromBytes(b.Marshal())
				want := fmt.Sprintf("%x", ma.Mul(mb).Bytes())
				for alias := 0; alias < 3; alias++ {
					x, y := Clone(a), Clone(b)
					r := new(bn256.GT)
					if alias == 0 && c.R.Bool() {
						r = gtEl(c, I(5))
					}
					if alias == 1 {
						r = x
					} else if alias == 2 {
						r = y
					}
					out := r.Add(x, y)
					c.Eval("mul", alias, cls(ka, kb))
					c.Count("operations compared")
					if gtHex(out) != want || gtHex(r) != want {
						c.Fail("GT Add(e^%s, e^%s) alias %d is wrong", ka, kb, alias)
					}
					if alias != 1 && gtHex(x) != gtHex(a) || alias != 2 && gtHex(y) != gtHex(b) {
						c.Fail("GT Add changed an operand")
					}
				}
				x := Clone(a)
				out := x.Add(x, x)
				c.Eval("square", ka.Sign())
				if gtHex(out) != fmt.Sprintf("%x", ma.Mul(ma).Bytes()) {
					c.Fail("GT x.Add(x,x) for x = e^%s is wrong", ka)
				}
				for alias := 0; alias < 2; alias++ {
					for op := 0; op < 2; op++ {
						x := Clone(a)
						r := new(bn256.GT)
						if alias == 1 {
							r = x
						}
						if op == 0 {
							out = r.Invert(x)
						} else {
							out = r.Neg(x)
						}
						c.Eval("inv", op, alias, ka.Sign())
						c.Count("operations compared")
						if !ref.F12FromBytes(out.Marshal()).Mul(ma).Equal(ref.F12One()) || gtHex(r) != gtHex(out) {
							c.Fail("GT inverse %d of e^%s, alias %d, is wrong", op, ka, alias)
						}
						if alias == 0 && gtHex(x) != gtHex(a) {
							c.Fail("GT inverse changed its operand")
						}
					}
				}
				isOne := ma.Equal(ref.F12One())
				if a.IsOne() != isOne || a.IsZero() {
					c.Fail("IsOne(e^%s) = %v, IsZero = %v", ka, a.IsOne(), a.IsZero())
				}
				inv := new(bn256.GT).Invert(a)
				if one := new(bn256.GT).Add(a, inv); !one.IsOne() || gtHex(one) != oneHex {
					c.Fail("x * x^-1 is not one for e^%s", ka)
				}
				c.Sample("e^%s, e^%s", ka, kb)
			}
		}},
		{"exponents", 120, 2000, func(c *C) {
			for n := 0; n < 2; n++ {
				ka := expo(c)
				a := gtEl(c, ka)
				k := c.R.Scalar(ref.BnN)
				gtExp(c, a, ka, k)
				c.Sample("(e^%s)^%s", ka, k)
			}
		}},
		{"fixed exponents", 24, 24, func(c *C) {
			var ks []*big.Int
			for _, m := range []int64{0, 1, 2} {
				b := new(big.Int).Mul(ref.BnN, I(m))
				for d := int64(-2); d <= 2; d++ {
					x := new(big.Int).Add(b, I(d))
					ks = append(ks, x, expNeg(x))
				}
			}
			for b := 0; b <= 264; b += 24 {
				ks = append(ks, Pow2(b), new(big.Int).Sub(Pow2(b), I(1)), expNeg(Pow2(b)))
			}
			for i, k := range ks {
				if i%c.N == c.Idx {
					ka := expo(c)
					gtExp(c, gtEl(c, ka), ka, k)
				}
			}
		}},
		{"programs", 48, 800, func(c *C) {
			const n = 4
			var reg [n]*bn256.GT
			var mod [n]*big.Int
			for i := range reg {
				mod[i] = expo(c, mod[:i]...)
				reg[i] = gtEl(c, mod[i])
			}
			trace := ""
			for s := 0; s < 12; s++ {
				d, a, b := c.R.Intn(n), c.R.Intn(n), c.R.Intn(n)
				k := c.R.Scalar(ref.BnN)
				op := c.R.Intn(5)
				p := Call(func() {
					switch op {
					case 0, 1:
						trace += fmt.Sprintf("r%d=r%d*r%d;", d, a, b)
						reg[d].Add(reg[a], reg[b])
						mod[d] = new(big.Int).Add(mod[a], mod[b])
					case 2:
						trace += fmt.Sprintf("r%d=1/r%d;", d, a)
						reg[d].Invert(reg[a])
						mod[d] = expNeg(mod[a])
					case 3:
						trace += fmt.Sprintf("r%d=r%d^%s;", d, a, k)
						reg[d].ScalarMult(reg[a], k)
						mod[d] = new(big.Int).Mul(mod[a], k)
					case 4:
						trace += fmt.Sprintf("r%d=neg r%d;", d, a)
						reg[d].Neg(reg[a])
						mod[d] = expNeg(mod[a])
					}
				})
				mod[d] = new(big.Int).Mod(mod[d], ref.BnN)
				c.Eval("program", op, d == a, d == b, a == b)
				if p != nil {
					c.Fail("%s: %v", trace, p)
					return
				}
			}
			for i := range reg {
				c.Count("operations compared")
				if gtHex(reg[i]) != ePow(mod[i]) {
					c.Fail("register r%d is not e^%s after %s", i, mod[i], trace)
				}
			}
		}},
	},
}

func gtEl(c *C, k *big.Int) *bn256.GT {
	switch c.R.Intn(3) {
	case 0:
		return bn256.Pair(new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(I(1)))
	case 1:
		x, ok := new(bn256.GT).Unmarshal(new(bn256.GT).ScalarMult(util.E, k).Marshal())
		if !ok || x == nil {
			c.Fail("cannot decode e^%s", k)
			break
		}
		return x
	}
	return new(bn256.GT).ScalarMult(util.E, k)
}

func gtExp(c *C, a *bn256.GT, ka, k *big.Int) {
	want := ePow(new(big.Int).Mul(ka, k))
	for alias := 0; alias < 2; alias++ {
		for op := 0; op < 2; op++ {
			x := Clone(a)
			r := new(bn256.GT)
			if alias == 1 {
				r = x
			} else if c.R.Bool() {
				r = gtEl(c, I(3))
			}
			kk := new(big.Int).Set(k)
			var out *bn256.GT
			p := Call(func() {
				if op == 0 {
					out = r.ScalarMult(x, kk)
				} else {
					out = r.Exp(x, kk)
				}
			})
			c.Eval("exp", op, alias, k.Sign(), k.Cmp(ref.BnN), (k.BitLen()+7)/8)
			c.Count("operations compared")
			if p != nil {
				c.Fail("GT exponentiation %d of e^%s by %s: %v", op, ka, k, p)
				continue
			}
			if gtHex(out) != want || gtHex(r) != want {
				c.Fail("GT exponentiation %d of e^%s by %s (alias %d) is wrong", op, ka, k, alias)
			}
			if kk.Cmp(k) != 0 || alias == 0 && gtHex(x) != gtHex(a) {
				c.Fail("GT exponentiation changed an operand")
			}
		}
	}
}
