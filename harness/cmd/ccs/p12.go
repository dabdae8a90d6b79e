package main

import (
	"fmt"
	"math/big"

	. "verif/harness/core"
	"verif/harness/zk"
)

// ulExpect is what the property says about x; judge is false if x is outside, but
// congruent to a value inside.
func ulExpect(x *big.Int, u, l int64) (valid, judge bool) {
	top := power(u, l)
	in := func(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(top) < 0 }
	if in(x) {
		return true, true
	}
	return false, !in(modN(x))
}

// ulSecret picks secrets around the bounds of [0,u^l).
func ulSecret(r *Rng, u, l int64, k int) (string, *big.Int) {
	top := power(u, l)
	d := I(int64(r.Intn(3)))
	switch k % 18 {
	case 0:
		return "0", I(0)
	case 1:
		return "top-1", new(big.Int).Sub(top, I(1))
	case 2:
		return "top", top
	case 3:
		return "-1", I(-1)
	case 4:
		return "top+d", new(big.Int).Add(top, d)
	case 5:
		return "-d-1", new(big.Int).Neg(new(big.Int).Add(d, I(1)))
	case 6:
		return "u^i", power(u, int64(r.Intn(int(l))))
	case 7:
		x := power(u, int64(r.Intn(int(l)))+1)
		return "u^i-1", x.Sub(x, I(1))
	case 8:
		return "top*u", new(big.Int).Mul(top, I(u))
	case 9:
		return "-top", new(big.Int).Neg(top)
	case 10:
		return "order+d", new(big.Int).Add(order, d)
	case 11:
		return "order-1", new(big.Int).Sub(order, I(1))
	case 12:
		x := new(big.Int).Mul(top, new(big.Int).Add(r.Bits(60), I(1)))
		return "k*top+y", x.Add(x, r.Below(top))
	case 13:
		return "2^64+y", new(big.Int).Add(Pow2(64), r.Below(top))
	case 14:
		return "-y", new(big.Int).Sub(new(big.Int).Neg(r.Below(top)), I(1))
	case 15:
		return "2^63", new(big.Int).Add(Pow2(63), d)
	}
	return "y", r.Below(top)
}

func ulRun(c *C, u, l int64, times, from int) {
	sys := ulSystem(c, u, l)
	if sys == nil {
		return
	}
	for t := 0; t < times; t++ {
		xc, x := ulSecret(c.R, u, l, from+t)
		ulOne(c, sys, u, l, xc, x)
	}
}

// ulOne proves and verifies one secret.
func ulOne(c *C, sys *zk.UL, u, l int64, xc string, x *big.Int) {
	rc, r := blinding(c.R)
	valid, judge := ulExpect(x, u, l)
	pr, why := proveUL(sys, x, r)
	if pr == nil {
		if valid {
			c.Fail("[0,%d^%d): ProveUL(%s, %s): %s", u, l, x, r, why)
		} else if len(why) < 6 || why[:6] != "error:" {
			c.Count("outside: refused with a panic")
		}
		c.Eval("refused", u, l, xc)
		return
	}
	if !judge {
		c.Count("outside, but congruent to a value inside: not judged")
		return
	}
	o := verifyUL(sys, pr)
	if valid && (!o.Accepted() || o.Err != nil) {
		c.Fail("[0,%d^%d): valid proof of %s with blinding %s: %s", u, l, x, r, o)
	}
	if !valid && o.Accepted() {
		c.Fail("[0,%d^%d): proof of %s, which is outside, is accepted", u, l, x)
	}
	c.Eval(u, l, xc, rc, valid)
	c.Count(map[bool]string{true: "inside, verified", false: "outside, rejected"}[valid])
	c.Sample("[0,%d^%d) x=%s r=%s: %s", u, l, x, r, o)
}

var p12 = Prop{
	ID:   "P12",
	Rule: "u and l from small to u^l close to the group order; secrets around both bounds, powers of u, multiples of u^l, around 2^63, 2^64 and the group order; hostile blindings; ProveUL and VerifyUL must agree with 0 <= x < u^l. Distinct: u, l, class of secret and blinding.",
	Min:  60,
	Suites: []Suite{
		{"close to the order", 3, 16, func(c *C) {
			ul := [][2]int64{{57, 43}, {200, 32}, {16, 63}}[c.Idx%3]
			ulRun(c, ul[0], ul[1], 2, 1+15*(c.Idx%2))
		}},
		{"large bases", 5, 24, func(c *C) {
			// every digit value has a signature of its own
			u := []int64{258, 300, 1031, 257, 515, 2050, 4099, 9001}[(c.Idx%5+c.Idx/5)%8]
			l := int64(1 + c.Idx%2)
			sys := ulSystem(c, u, l)
			if sys == nil {
				return
			}
			for t := 0; t < 4; t++ {
				x := new(big.Int)
				var ds []int64
				for i := int64(0); i < l; i++ {
					d := []int64{0, 1, 255, 256, u - 1, u - 2, u / 2, c.R.Int64()}[(t+2*int(i)*c.R.Intn(3))%8]
					d = ((d % u) + u) % u
					ds = append(ds, d)
					x.Add(x, new(big.Int).Mul(I(d), power(u, i)))
				}
				if t == 3 {
					x = []*big.Int{power(u, l), I(-1), c.R.Below(power(u, l))}[c.R.Intn(3)]
				}
				ulOne(c, sys, u, l, fmt.Sprint("digits", len(ds)), x)
			}
		}},
		{"bits", 4, 24, func(c *C) { ulRun(c, 2, []int64{32, 64, 65, 63}[c.Idx%4], 2, 1) }},
		{"wide", 16, 120, func(c *C) {
			ul := [][2]int64{{57, 11}, {16, 16}, {57, 12}, {10, 19}, {100, 10}, {200, 8}, {16, 17}, {3, 41}}[c.Idx%8]
			ulRun(c, ul[0], ul[1], 3, []int{1, 16, 12, 2, 4, 17, 13, 15}[(c.Idx/8+c.Idx)%8])
		}},
		{"history", 16, 300, func(c *C) {
			// several proofs from one setup, verified in another order
			u, l := int64(2+c.R.Intn(9)), int64(1+c.R.Intn(3))
			sys := ulSystem(c, u, l)
			if sys == nil {
				return
			}
			type item struct {
				pr    any
				valid bool
				x     *big.Int
			}
			var items []item
			for t := 0; t < 6; t++ {
				_, x := ulSecret(c.R, u, l, c.R.Intn(18))
				valid, judge := ulExpect(x, u, l)
				if !judge {
					continue
				}
				_, r := blinding(c.R)
				if pr, _ := proveUL(sys, x, r); pr != nil {
					items = append(items, item{pr, valid, x})
				}
			}
			for _, k := range append(c.R.Perm(len(items)), c.R.Perm(len(items))...) {
				s := sys
				if c.R.Intn(3) == 0 {
					s = &zk.UL{P: CloneAny(sys.P)}
				}
				if o := verifyUL(s, items[k].pr); o.Accepted() != items[k].valid {
					c.Fail("[0,%d^%d): proof of %s in a history of %d proofs: %s", u, l, items[k].x, len(items), o)
				}
				c.Count("verifications in histories")
				c.Eval("history", fmt.Sprint(items[k].valid))
			}
		}},
		{"small", 72, 2000, func(c *C) {
			u := []int64{2, 3, 4, 5, 7, 10, 16, 57}[c.R.Intn(8)]
			l := int64(1 + c.R.Intn(4))
			ulRun(c, u, l, 6, c.R.Intn(18))
		}},
	},
}
