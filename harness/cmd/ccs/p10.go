package main

import (
	"fmt"
	"math/big"

	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

func sizeClass(x int64) string {
	s := "+"
	if x < 0 {
		s = "-"
	}
	return fmt.Sprint(s, I(x).BitLen()/8)
}

var p10 = Prop{
	ID:   "P10",
	Rule: "sets of hostile int64 elements (extreme, negative, duplicate, single, up to 513 elements), members proved with hostile blindings, several and dozens of proofs per setup, verified at once, later and in a copy of the parameters. Distinct: set size, element class, blinding class.",
	Min:  60,
	Suites: []Suite{
		{"members", 160, 2500, func(c *C) {
			n := 1 + c.R.Intn(5)
			if c.Idx%16 == 0 {
				n = 20 + c.R.Intn(30)
			}
			s := make([]int64, n)
			for i := range s {
				s[i] = hostileInt64(c.R)
				if i > 0 && c.R.Intn(4) == 0 {
					s[i] = s[c.R.Intn(i)] // duplicate
				}
			}
			sys := setSystem(c, s)
			if sys == nil {
				return
			}
			var proofs []any
			for t := 0; t < 4; t++ {
				x := s[c.R.Intn(n)]
				rc, r := blinding(c.R)
				pr, why := proveSet(sys, x, r)
				if pr == nil {
					c.Fail("ProveSet(%d, %s) for %v: %s", x, r, s, why)
					continue
				}
				o := verifySet(sys, pr)
				if !o.Accepted() || o.Err != nil {
					c.Fail("set %v: proof of the member %d with blinding %s: %s", s, x, r, o)
				}
				c.Eval(n, sizeClass(x), rc)
				c.Count("member proofs verified")
				c.Sample("set %v, x=%d, r=%s: %s", s, x, r, o)
				proofs = append(proofs, pr)
			}
			for i := len(proofs) - 1; i >= 0; i-- {
				if o := verifySet(sys, proofs[i]); !o.Accepted() {
					c.Fail("set %v: proof %d is not accepted later: %s", s, i, o)
				}
				c.Count("later verifications")
			}
			if len(proofs) > 0 {
				if o := verifySet(&zk.Set{P: CloneAny(sys.P)}, CloneAny(proofs[0])); !o.Accepted() {
					c.Fail("set %v: a copy of proof and parameters is not accepted: %s", s, o)
				}
			}
		}},
		{"large sets", 6, 24, func(c *C) {
			// consecutive, spaced and random elements
			n := []int{70, 129, 257, 300, 513, 100}[c.Idx%6]
			s := make([]int64, n)
			start, step := hostileInt64(c.R), int64(1+c.R.Intn(5))
			for i := range s {
				switch c.Idx % 3 {
				case 0:
					s[i] = start + int64(i)*step
				case 1:
					s[i] = int64(i) - int64(n)/2
				default:
					s[i] = c.R.Int64()
				}
			}
			sys := setSystem(c, s)
			if sys == nil {
				return
			}
			for t, i := range []int{0, n - 1, n / 2, 64, c.R.Intn(n), c.R.Intn(n)} {
				rc, r := blinding(c.R)
				pr, why := proveSet(sys, s[i], r)
				if pr == nil {
					c.Fail("ProveSet(%d, %s) for a set of %d elements: %s", s[i], r, n, why)
					continue
				}
				if o := verifySet(sys, pr); !o.Accepted() || o.Err != nil {
					c.Fail("set of %d elements: proof of element %d = %d with blinding %s: %s", n, i, s[i], r, o)
				}
				c.Eval("large", n, t, rc)
				c.Count("member proofs verified")
			}
		}},
		{"long", 4, 40, func(c *C) {
			s := []int64{hostileInt64(c.R), hostileInt64(c.R), 7}
			sys := setSystem(c, s)
			if sys == nil {
				return
			}
			var first any
			for t := 0; t < 60; t++ {
				x := s[c.R.Intn(3)]
				_, r := blinding(c.R)
				pr, why := proveSet(sys, x, r)
				if pr == nil {
					c.Fail("ProveSet(%d, %s) for %v, proof %d of the setup: %s", x, r, s, t, why)
					return
				}
				if o := verifySet(sys, pr); !o.Accepted() || o.Err != nil {
					c.Fail("set %v: proof %d of the setup, of the member %d with blinding %s: %s", s, t, x, r, o)
					return
				}
				c.Count("member proofs verified")
				if first == nil {
					first = pr
				}
			}
			if o := verifySet(sys, first); !o.Accepted() {
				c.Fail("set %v: the first proof is not accepted after many others: %s", s, o)
			}
			c.Eval("long")
		}},
		{"draws", 48, 600, func(c *C) {
			// random draws that are extreme, but none that are 0
			s := []int64{hostileInt64(c.R), hostileInt64(c.R)}
			sys := setSystem(c, s)
			if sys == nil {
				return
			}
			for t := 0; t < 2; t++ {
				r := c.Install(2, ref.BnN)
				v := []*big.Int{I(1), I(2), new(big.Int).Sub(ref.BnN, I(1)), Pow2(8), Pow2(200), Pow2(254), new(big.Int).Rsh(ref.BnN, 1)}[c.R.Intn(7)]
				if v.Cmp(ref.BnN) >= 0 {
					v = I(3)
				}
				r.Const = v
				rc, b := blinding(c.R)
				x := s[c.R.Intn(2)]
				pr, why := proveSet(sys, x, b)
				if pr == nil {
					c.Fail("ProveSet(%d, %s), all draws %s: %s", x, b, v, why)
					continue
				}
				if o := verifySet(sys, pr); !o.Accepted() {
					c.Fail("set %v: proof of the member %d with blinding %s, all draws %s: %s", s, x, b, v, o)
				}
				c.Eval("draws", v.BitLen(), rc)
				c.Count("member proofs with extreme draws verified")
			}
		}},
	},
}

// neighbours are integers that a sloppy membership test may confuse with x.
func neighbour(r *Rng, x int64) int64 {
	switch r.Intn(16) {
	case 11:
		return x + 1<<uint(r.Intn(64))
	case 12, 13:
		k := int64(1)
		for i := r.Intn(19); i > 0; i-- {
			k *= 10
		}
		return x + k*int64(1-2*r.Intn(2))
	case 14:
		return x + int64(r.Intn(400)-200)
	case 0:
		return x + 1
	case 1:
		return x - 1
	case 2:
		return -x
	case 3:
		return x ^ (1 << uint(r.Intn(64)))
	case 4:
		return x + 1<<32
	case 5:
		return int64(int32(x))
	case 6:
		return int64(uint32(x))
	case 7:
		return x << 1
	case 8:
		return x >> 1
	case 9:
		return 0
	case 10:
		return ^x
	}
	return hostileInt64(r)
}

var p11 = Prop{
	ID:   "P11",
	Rule: "elements outside of hostile sets (neighbours, sign and width changes) given to ProveSet, which must return an error; valid proofs of one setup verified under the parameters of others (other key, other set), which must not accept; proofs made with parameters that the prover altered (signatures of other elements or by another key), which must not be accepted. Distinct: relation of the non-member to the set, kind of foreign parameters.",
	Min:  60,
	Suites: []Suite{
		{"non-members", 160, 2500, func(c *C) {
			n := 1 + c.R.Intn(8)
			if c.Idx%20 == 0 {
				n = 0
			}
			if c.Idx%40 == 1 {
				n = 40 + c.R.Intn(100)
			}
			s := make([]int64, n)
			in := map[int64]bool{}
			for i := range s {
				s[i] = hostileInt64(c.R)
				if i > 0 && n > 8 && c.Idx%80 == 1 {
					s[i] = s[0] + int64(3*i) // evenly spaced
				}
				in[s[i]] = true
			}
			sys := setSystem(c, s)
			if sys == nil {
				return
			}
			for t := 0; t < 40; t++ {
				x := hostileInt64(c.R)
				if n > 0 {
					x = neighbour(c.R, s[c.R.Intn(n)])
				}
				if in[x] {
					continue
				}
				rc, r := blinding(c.R)
				pr, why := proveSet(sys, x, r)
				if pr != nil {
					c.Fail("ProveSet(%d, %s) for the set %v returns a proof and no error", x, r, s)
					if o := verifySet(sys, pr); o.Accepted() {
						c.Fail("and it is accepted")
					}
				} else if len(why) < 6 || why[:6] != "error:" {
					c.Fail("ProveSet(%d) for the set %v: %s instead of an error", x, s, why)
				}
				c.Eval("non-member", n, sizeClass(x), rc)
				c.Count("non-members refused")
			}
		}},
		{"foreign parameters", 96, 1200, func(c *C) {
			x := hostileInt64(c.R)
			other := neighbour(c.R, x)
			if other == x {
				other = x + 1
			}
			own := setSystem(c, []int64{x, other})
			if own == nil {
				return
			}
			_, r := blinding(c.R)
			pr, why := proveSet(own, x, r)
			if pr == nil {
				c.Count("no proof: " + why[:5])
				return
			}
			sets := map[string][]int64{"same set": {x, other}, "set without x": {other}, "larger set": {x, other, x + 2}, "same set, other order": {other, x}, "empty set": {}}
			for _, name := range Keys(sets) {
				set := sets[name]
				sys := setSystem(c, set)
				if sys == nil {
					return
				}
				if o := verifySet(sys, pr); o.Accepted() {
					c.Fail("a proof of %d under one setup is accepted under another (%s)", x, name)
				}
				c.Eval("foreign", name, sizeClass(x))
				c.Count("proofs under foreign parameters")
			}
			if o := verifySet(own, pr); !o.Accepted() {
				c.Count("calibration: own proof not accepted")
			} else {
				c.Count("calibration: own proofs accepted")
			}
		}},
		{"altered parameters", 80, 1000, func(c *C) { alteredSet(c) }},
	},
}
