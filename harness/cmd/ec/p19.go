package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
)

// same checks that a point of the code under test has the value of the model point.
func same(c *C, got *p256.P256, want ref.Pt, format string, a ...any) bool {
	g, err := FromP(got)
	if err != nil {
		c.Fail("%s: result is no group element: %v, want %s", fmt.Sprintf(format, a...), err, want)
		return false
	}
	if !g.Equal(want) {
		c.Fail("%s = %s, want %s", fmt.Sprintf(format, a...), g, want)
		return false
	}
	return true
}

// rep gives a fresh object for the model point; infinity has two representations.
func rep(a ref.Pt, k int) *p256.P256 {
	if a.Inf && k%2 == 1 {
		return &p256.P256{X: new(big.Int), Y: new(big.Int)}
	}
	return ToP(a)
}

func dirty(c *C) *p256.P256 {
	switch c.R.Intn(4) {
	case 0:
		return new(p256.P256)
	case 1:
		return &p256.P256{X: new(big.Int), Y: new(big.Int)}
	case 2:
		return ToP(ref.SecG)
	}
	return &p256.P256{X: new(big.Int).Set(ref.SecGx), Y: big.NewInt(3)}
}

func class(a, b ref.Pt) string {
	switch {
	case a.Inf && b.Inf:
		return "inf+inf"
	case a.Inf:
		return "inf+p"
	case b.Inf:
		return "p+inf"
	case a.Equal(b):
		return "equal"
	case a.Equal(ref.Secp.Neg(b)):
		return "opposite"
	case a.Y.Cmp(b.Y) == 0:
		return "same y"
	case new(big.Int).Add(a.Y, b.Y).Cmp(ref.SecP) == 0:
		return "opposite y"
	}
	return "generic"
}

// binary drives the two-operand operations with every aliasing of the receiver.
func binary(c *C, a, b ref.Pt, label string) {
	sum := ref.Secp.Add(a, b)
	cl := class(a, b)
	for ra := 0; ra < 2; ra++ {
		for rb := 0; rb < 2; rb++ {
			if (!a.Inf && ra == 1) || (!b.Inf && rb == 1) {
				continue
			}
			for alias := 0; alias < 3; alias++ {
				for op := 0; op < 2; op++ {
					if op == 1 && a.Equal(b) && !a.Inf {
						continue // Add is documented for distinct points only
					}
					x, y := rep(a, ra), rep(b, rb)
					r := dirty(c)
					if alias == 1 {
						r = x
					} else if alias == 2 {
						r = y
					}
					name := "Multiply"
					var out *p256.P256
					p := Call(func() {
						if op == 0 {
							out = r.Multiply(x, y)
						} else {
							name = "Add"
							out = r.Add(x, y)
						}
					})
					c.Eval("bin", name, cl, alias, ra, rb, label)
					if p != nil {
						c.Fail("%s(%s, %s) alias=%d: %v", name, a, b, alias, p)
						continue
					}
					c.Count("group operations compared")
					same(c, out, sum, "%s(%s, %s) [%s, alias %d, repr %d%d]", name, a, b, cl, alias, ra, rb)
					same(c, r, sum, "receiver of %s(%s, %s) [%s, alias %d, repr %d%d]", name, a, b, cl, alias, ra, rb)
				}
			}
		}
	}
	// the same object as both operands
	if a.Equal(b) {
		for ra := 0; ra < 2; ra++ {
			x := rep(a, ra)
			var out *p256.P256
			if p := Call(func() { out = x.Multiply(x, x) }); p != nil {
				c.Fail("x.Multiply(x,x) for %s: %v", a, p)
			} else {
				same(c, out, sum, "x.Multiply(x,x), x=%s", a)
			}
			c.Eval("square", a.Inf, ra)
		}
	}
}

func unary(c *C, a ref.Pt) {
	for ra := 0; ra < 2; ra++ {
		if !a.Inf && ra == 1 {
			continue
		}
		for alias := 0; alias < 2; alias++ {
			for op := 0; op < 2; op++ {
				x := rep(a, ra)
				r := dirty(c)
				if alias == 1 {
					r = x
				}
				var out *p256.P256
				want := ref.Secp.Add(a, a)
				name := "Double"
				p := Call(func() {
					if op == 0 {
						out = r.Double(x)
					} else {
						want = ref.Secp.Neg(a)
						name = "Neg"
						out = r.Neg(x)
					}
				})
				c.Eval("un", name, a.Inf, alias, ra)
				if p != nil {
					c.Fail("%s(%s): %v", name, a, p)
					continue
				}
				c.Count("group operations compared")
				same(c, out, want, "%s(%s) alias=%d", name, a, alias)
				same(c, r, want, "receiver of %s(%s) alias=%d", name, a, alias)
			}
		}
		x := rep(a, ra)
		var z bool
		if p := Call(func() { z = x.IsZero() }); p != nil || z != a.Inf {
			c.Fail("IsZero(%s repr %d) = %v %v", a, ra, z, p)
		}
		var on bool
		if p := Call(func() { on = x.IsOnCurve() }); p != nil || on != !a.Inf {
			c.Fail("IsOnCurve(%s repr %d) = %v %v", a, ra, on, p)
		}
		c.Eval("pred", a.Inf, ra)
	}
}

func scalar(c *C, a ref.Pt, k *big.Int, label string) {
	want := SecMul(a, k)
	if c.R.Intn(16) == 0 {
		want = ref.Secp.Mul(a, k) // without using the order at all
	}
	for ra := 0; ra < 2; ra++ {
		if !a.Inf && ra == 1 {
			continue
		}
		for alias := 0; alias < 2; alias++ {
			x := rep(a, ra)
			r := dirty(c)
			if alias == 1 {
				r = x
			}
			kk := new(big.Int).Set(k)
			var out *p256.P256
			p := Call(func() { out = r.ScalarMult(x, kk) })
			c.Eval("mul", label, a.Inf, k.Sign(), k.Cmp(ref.SecN), (k.BitLen()+7)/8, alias)
			if p != nil {
				c.Fail("ScalarMult(%s, %s): %v", a, k, p)
				continue
			}
			c.Count("scalar multiplications compared")
			same(c, out, want, "ScalarMult(%s, %s) alias=%d", a, k, alias)
			same(c, r, want, "receiver of ScalarMult(%s, %s) alias=%d", a, k, alias)
			if kk.Cmp(k) != 0 {
				c.Fail("ScalarMult changed its scalar %s to %s", k, kk)
			}
		}
	}
	if a.Equal(ref.SecG) {
		r := dirty(c)
		var out *p256.P256
		p := Call(func() { out = r.ScalarBaseMult(new(big.Int).Set(k)) })
		c.Eval("base", label, k.Sign(), k.Cmp(ref.SecN), (k.BitLen()+7)/8)
		if p != nil {
			c.Fail("ScalarBaseMult(%s): %v", k, p)
			return
		}
		c.Count("scalar multiplications compared")
		same(c, out, want, "ScalarBaseMult(%s)", k)
		same(c, r, want, "receiver of ScalarBaseMult(%s)", k)
	}
}

// hostilePoint draws points with coordinates of unusual shape as well as uniform ones.
func hostilePoint(c *C) ref.Pt {
	switch c.R.Intn(12) {
	case 0:
		return ref.Pt{Inf: true}
	case 1:
		return ref.SecG
	case 2:
		return SecMul(ref.SecG, I(int64(c.R.Intn(41)-20)))
	case 3, 4, 5: // small or sparse x: leading zero bytes
		x := c.R.Bits(8 * (1 + c.R.Intn(31)))
		if c.R.Intn(3) == 0 {
			x = new(big.Int).Sub(ref.SecP, x)
		}
		for i := 0; i < 200; i++ {
			if p, ok := ref.Secp.Lift(x); ok {
				if c.R.Bool() {
					p = ref.Secp.Neg(p)
				}
				return p
			}
			x = new(big.Int).Add(x, I(1))
		}
	case 6: // small y: x = cbrt(y^2-7)
		e := new(big.Int).Add(ref.SecP, I(2))
		e.Div(e, I(9)) // p = 7 mod 9
		for i := 0; i < 100; i++ {
			y := c.R.Bits(8 * (1 + c.R.Intn(8)))
			t := new(big.Int).Mul(y, y)
			t.Sub(t, I(7)).Mod(t, ref.SecP)
			x := new(big.Int).Exp(t, e, ref.SecP)
			p := ref.Pt{X: x, Y: y}
			if y.Sign() > 0 && ref.Secp.On(p) {
				return p
			}
		}
	}
	return SecMul(ref.SecG, c.R.Below(ref.SecN))
}

// related draws a point in a special relation to a.
func related(c *C, a ref.Pt) ref.Pt {
	if a.Inf {
		return hostilePoint(c)
	}
	beta2 := new(big.Int).Mul(ref.BetaP, ref.BetaP)
	endo := func(p ref.Pt, b *big.Int) ref.Pt {
		x := new(big.Int).Mul(p.X, b)
		return ref.Pt{X: x.Mod(x, ref.SecP), Y: p.Y}
	}
	switch c.R.Intn(11) {
	case 0:
		return a
	case 1:
		return ref.Secp.Neg(a)
	case 2:
		return endo(a, ref.BetaP)
	case 3:
		return endo(a, beta2)
	case 4:
		return ref.Secp.Neg(endo(a, ref.BetaP))
	case 5:
		return ref.Secp.Neg(endo(a, beta2))
	case 6:
		return ref.Secp.Add(a, a)
	case 7:
		return ref.Secp.Neg(ref.Secp.Add(a, a))
	case 8:
		return ref.Pt{Inf: true}
	case 9:
		return ref.Secp.Add(a, ref.SecG)
	}
	return hostilePoint(c)
}

var p19 = Prop{
	ID:   "P19",
	Rule: "operands: all pairs of small multiples of G (both representations of infinity), points in special position (equal, opposite, endomorphism images sharing y, doubles, coordinates with leading zeros), hostile integers; every aliasing of receiver and operands; long random programs over registers. Each result is compared with an affine model. Distinct: operation, operand class, scalar class, aliasing, representation.",
	Min:  60,
	Suites: []Suite{
		{"pairs", 16, 16, func(c *C) {
			w := int64(9)
			if c.Thorough() {
				w = 20
			}
			tab := map[int64]ref.Pt{}
			for i := -2 * w; i <= 2*w; i++ {
				tab[i] = ref.Secp.Mul(ref.SecG, I(i))
			}
			k := 0
			for i := -w; i <= w; i++ {
				for j := -w; j <= w; j++ {
					k++
					if k%c.N == c.Idx {
						binary(c, tab[i], tab[j], "small")
					}
				}
				if int(i+w)%c.N == c.Idx {
					unary(c, tab[i])
				}
			}
			c.Sample("all pairs (i*G, j*G), |i|,|j| <= %d, shard %d", w, c.Idx)
		}},
		{"special", 400, 8000, func(c *C) {
			for n := 0; n < 6; n++ {
				a := hostilePoint(c)
				b := related(c, a)
				binary(c, a, b, "special")
				binary(c, b, a, "special")
				unary(c, a)
				c.Sample("%s with %s: %s", a, b, class(a, b))
			}
		}},
		{"scalars", 480, 9000, func(c *C) {
			for n := 0; n < 12; n++ {
				a := ref.SecG
				if n%2 == 1 {
					a = hostilePoint(c)
				}
				k := c.R.Scalar(ref.SecN)
				if n%5 == 4 {
					k = new(big.Int).Mul(ref.LambdaN, I(int64(c.R.Intn(5)-2)))
				}
				scalar(c, a, k, "hostile")
				c.Sample("(%s)^%s", a, k)
			}
		}},
		{"fixed scalars", 8, 8, func(c *C) {
			one := I(1)
			var ks []*big.Int
			for _, m := range []int64{0, 1, 2, 3} {
				base := new(big.Int).Mul(ref.SecN, I(m))
				for d := int64(-3); d <= 3; d++ {
					ks = append(ks, new(big.Int).Add(base, I(d)))
					ks = append(ks, new(big.Int).Neg(new(big.Int).Add(base, I(d))))
				}
			}
			for b := 0; b <= 270; b += 3 {
				ks = append(ks, Pow2(b), new(big.Int).Sub(Pow2(b), one), new(big.Int).Neg(Pow2(b)))
			}
			h := new(big.Int).Rsh(ref.SecN, 1)
			ks = append(ks, h, new(big.Int).Add(h, one), ref.LambdaN, new(big.Int).Sub(ref.SecN, ref.LambdaN), ref.SecP)
			for i, k := range ks {
				if i%c.N == c.Idx {
					scalar(c, ref.SecG, k, "fixed")
					scalar(c, hostilePoint(c), k, "fixed")
				}
			}
		}},
		{"offcurve", 40, 400, func(c *C) {
			for n := 0; n < 40; n++ {
				a := hostilePoint(c)
				if a.Inf {
					continue
				}
				b := ref.Pt{X: a.X, Y: a.Y}
				kind := c.R.Intn(8)
				switch kind {
				case 0:
					b.Y = new(big.Int).Mod(new(big.Int).Add(a.Y, I(1)), ref.SecP)
				case 1:
					b.X = new(big.Int).Mod(new(big.Int).Add(a.X, I(1)), ref.SecP)
				case 2:
					b.X, b.Y = a.Y, a.X
				case 3:
					b.X = new(big.Int)
				case 4:
					b.Y = new(big.Int)
				case 5: // on y^2 = x^3 + b' for another b'
					b.X, b.Y = c.R.Below(ref.SecP), c.R.Below(ref.SecP)
				case 6: // y^2 = -(x^3+7)
					b.X = new(big.Int).Sub(ref.SecP, a.X)
				case 7:
					b.Y = new(big.Int).Xor(a.Y, Pow2(c.R.Intn(255)))
					b.Y.Mod(b.Y, ref.SecP)
				}
				want := ref.Secp.On(b) && !(b.X.Sign() == 0 && b.Y.Sign() == 0)
				var on bool
				p := Call(func() { on = ToP(b).IsOnCurve() })
				c.Eval("oncurve", kind, want)
				c.Count("membership decisions compared")
				if p != nil || on != want {
					c.Fail("IsOnCurve(%s) = %v %v, want %v", b, on, p, want)
				}
			}
		}},
		{"programs", 200, 4000, func(c *C) {
			// registers with a value and the model's value; operations write to any register,
			// also one that is an operand.
			const n = 6
			var reg [n]*p256.P256
			var mod [n]ref.Pt
			for i := range reg {
				mod[i] = hostilePoint(c)
				reg[i] = rep(mod[i], c.R.Intn(2))
			}
			trace := ""
			for step := 0; step < 40; step++ {
				d, a, b := c.R.Intn(n), c.R.Intn(n), c.R.Intn(n)
				k := c.R.Scalar(ref.SecN)
				op := c.R.Intn(8)
				var p any
				switch op {
				case 0, 1, 2:
					trace += fmt.Sprintf("r%d=r%d*r%d;", d, a, b)
					p = Call(func() { reg[d].Multiply(reg[a], reg[b]) })
					mod[d] = ref.Secp.Add(mod[a], mod[b])
				case 3:
					if mod[a].Equal(mod[b]) && !mod[a].Inf {
						continue
					}
					trace += fmt.Sprintf("r%d=r%d+r%d;", d, a, b)
					p = Call(func() { reg[d].Add(reg[a], reg[b]) })
					mod[d] = ref.Secp.Add(mod[a], mod[b])
				case 4:
					trace += fmt.Sprintf("r%d=2r%d;", d, a)
					p = Call(func() { reg[d].Double(reg[a]) })
					mod[d] = ref.Secp.Add(mod[a], mod[a])
				case 5:
					trace += fmt.Sprintf("r%d=-r%d;", d, a)
					p = Call(func() { reg[d].Neg(reg[a]) })
					mod[d] = ref.Secp.Neg(mod[a])
				case 6:
					trace += fmt.Sprintf("r%d=r%d^%s;", d, a, k)
					p = Call(func() { reg[d].ScalarMult(reg[a], k) })
					mod[d] = SecMul(mod[a], k)
				case 7:
					trace += fmt.Sprintf("r%d=g^%s;", d, k)
					p = Call(func() { reg[d].ScalarBaseMult(k) })
					mod[d] = SecMul(ref.SecG, k)
				}
				c.Eval("program", op, d == a, d == b, a == b, mod[d].Inf)
				c.Count("program steps compared")
				if p != nil {
					c.Fail("%s: %v", trace, p)
					return
				}
				for i := range reg {
					if !same(c, reg[i], mod[i], "register r%d after %s", i, trace) {
						return
					}
				}
			}
			c.Sample("%.200s", trace)
		}},
	},
}
