package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/ref"
)

func hashBP(c *C, in []ref.Pt, reps []int) (string, string) {
	ps := make([]*p256.P256, len(in))
	for i := range in {
		ps[i] = rep(in[i], reps[i])
	}
	a, b, err := bulletproofs.HashBP(ps...)
	if err != nil || a == nil || b == nil {
		c.Fail("HashBP(%v): %v", in, err)
		return "", ""
	}
	x, y := ModN(a), ModN(b)
	if x.Cmp(y) == 0 {
		c.Fail("both challenges of HashBP are %s for %v", x, in)
	}
	return x.String(), y.String()
}

func endoP(a ref.Pt) ref.Pt {
	x := new(big.Int).Mul(a.X, ref.BetaP)
	return ref.Pt{X: x.Mod(x, ref.SecP), Y: a.Y}
}

// g2Proj returns k*G2 in the representation that arithmetic leaves it in, and affine.
func g2Reps(k *big.Int, split *big.Int) (proj, aff *bn256.G2) {
	proj = new(bn256.G2).Add(new(bn256.G2).ScalarBaseMult(new(big.Int).Sub(k, split)), new(bn256.G2).ScalarBaseMult(split))
	aff, _ = new(bn256.G2).Unmarshal(proj.Marshal())
	return
}

var p18 = Prop{
	ID:   "P18",
	Rule: "lists of 0 to 12 group elements (points, infinity in both representations, GT elements) hashed twice, in every representation, and once for each single change of the input: element negated, replaced by an element sharing a coordinate, replaced by infinity, dropped, duplicated, exchanged with a neighbour; for GT and G2 also a change of each single coordinate; long series of lists, whose challenges must be pairwise different and vary in at least 120 bits. Distinct: function, list length, changed position and kind of change.",
	Min:  100,
	Suites: []Suite{
		{"HashBP", 390, 5200, func(c *C) {
			n := c.Idx % 13
			in := make([]ref.Pt, n)
			reps := make([]int, n)
			for i := range in {
				in[i] = hostilePoint(c)
			}
			x0, y0 := hashBP(c, in, reps)
			for i := range reps {
				reps[i] = c.R.Intn(2)
			}
			x1, y1 := hashBP(c, in, reps)
			c.Eval("rep", n)
			if x0 != x1 || y0 != y1 {
				c.Fail("HashBP depends on the representation or is not deterministic: %v", in)
			}
			differ := func(kind string, pos int, out []ref.Pt) {
				// the same list of elements is not a change
				if len(out) == len(in) {
					eq := true
					for i := range in {
						eq = eq && in[i].Equal(out[i])
					}
					if eq {
						return
					}
				}
				x2, y2 := hashBP(c, out, make([]int, len(out)))
				c.Eval("HashBP", n, pos, kind)
				c.Count("changed inputs hashed")
				if x2 == x0 {
					c.Fail("first challenge of HashBP ignores %s of input %d of %d: %v", kind, pos, n, in)
				}
				if y2 == y0 {
					c.Fail("second challenge of HashBP ignores %s of input %d of %d: %v", kind, pos, n, in)
				}
			}
			for i := range in {
				with := func(p ref.Pt) []ref.Pt {
					o := append([]ref.Pt(nil), in...)
					o[i] = p
					return o
				}
				if !in[i].Inf {
					differ("negation", i, with(ref.Secp.Neg(in[i])))
					differ("endomorphism", i, with(endoP(in[i])))
				}
				differ("infinity", i, with(ref.Pt{Inf: true}))
				differ("replacement", i, with(hostilePoint(c)))
				differ("removal", i, append(append([]ref.Pt(nil), in[:i]...), in[i+1:]...))
				differ("duplication", i, append(append(append([]ref.Pt(nil), in[:i+1]...), in[i]), in[i+1:]...))
				if i+1 < n {
					o := with(in[i+1])
					o[i+1] = in[i]
					differ("exchange", i, o)
				}
			}
			c.Sample("%d points, challenges %.20s.. %.20s..", n, x0, y0)
		}},
		{"HashSet", 24, 200, func(c *C) { hashGT(c, true) }},
		{"Hash", 36, 300, func(c *C) { hashGT(c, false) }},
		{"hashIP", 24, 200, func(c *C) {
			// The challenge is visible in U = u^x of the argument.
			n := int64(1) << (c.Idx % 4)
			base, err := bulletproofs.VerifSetupInnerProduct(nil, nil, nil, c.R.Below(ref.SecN), n)
			if err != nil {
				c.Fail("setupInnerProduct: %v", err)
				return
			}
			var a, b []*big.Int
			for i := int64(0); i < n; i++ {
				a = append(a, c.R.Below(ref.SecN))
				b = append(b, c.R.Below(ref.SecN))
			}
			P := hostilePoint(c)
			uOf := func(prm bulletproofs.InnerProductParams, P *p256.P256) string {
				pr, err := bulletproofs.VerifProveInnerProduct(a, b, P, prm)
				if err != nil {
					c.Fail("proveInnerProduct: %v", err)
				}
				return PStr(pr.U)
			}
			u0 := uOf(base, rep(P, 0))
			if u0 != uOf(base, rep(P, 1)) {
				c.Fail("hashIP depends on the representation of P = %s", P)
			}
			differ := func(kind string, i int, prm bulletproofs.InnerProductParams, P *p256.P256) {
				c.Eval("hashIP", n, kind, i)
				c.Count("changed inputs hashed")
				if uOf(prm, P) == u0 {
					c.Fail("hashIP ignores a change of %s[%d] (n=%d)", kind, i, n)
				}
			}
			differ("P", 0, base, ToP(ref.Secp.Add(P, ref.SecG)))
			if !P.Inf {
				differ("P negated", 0, base, ToP(ref.Secp.Neg(P)))
				differ("P endomorphism", 0, base, ToP(endoP(P)))
			}
			m := base
			m.Cc = new(big.Int).Add(base.Cc, I(1))
			differ("c", 0, m, rep(P, 0))
			m.Cc = new(big.Int).Neg(base.Cc)
			differ("c negated", 0, m, rep(P, 0))
			// small and special claims, and their neighbours
			for _, cl := range []*big.Int{I(0), I(1), I(int64(c.R.Intn(100))), Pow2(64), Pow2(c.R.Intn(256)), I(int64(-c.R.Intn(100))), c.R.Bits(1 + c.R.Intn(255)), new(big.Int).Sub(ref.SecN, I(1))} {
				seen := map[string]*big.Int{}
				for d := int64(-1); d <= 2; d++ {
					m := base
					m.Cc = new(big.Int).Add(cl, I(d))
					u := uOf(m, rep(P, 0))
					c.Eval("hashIP claim", n, cl.BitLen(), d)
					if old, dup := seen[u]; dup && ModN(old).Cmp(ModN(m.Cc)) != 0 {
						c.Fail("hashIP: the claims %s and %s have the same challenge (n=%d)", old, m.Cc, n)
					}
					seen[u] = m.Cc
					c.Count("changed inputs hashed")
				}
			}
			neg := func(l []*p256.P256, i int) []*p256.P256 {
				o := append([]*p256.P256(nil), l...)
				r, _ := FromP(l[i])
				o[i] = ToP(ref.Secp.Neg(r))
				return o
			}
			swap := func(l []*p256.P256, i int) []*p256.P256 {
				o := append([]*p256.P256(nil), l...)
				o[i], o[i+1] = o[i+1], o[i]
				return o
			}
			for i := 0; i < int(n); i++ {
				m = base
				m.Gg = neg(base.Gg, i)
				differ("g", i, m, rep(P, 0))
				m = base
				m.Hh = neg(base.Hh, i)
				differ("h", i, m, rep(P, 0))
				if i+1 < int(n) {
					m = base
					m.Gg = swap(base.Gg, i)
					differ("g exchanged", i, m, rep(P, 0))
					m = base
					m.Hh = swap(base.Hh, i)
					differ("h exchanged", i, m, rep(P, 0))
				}
				m = base
				m.Gg = append([]*p256.P256(nil), base.Gg...)
				m.Hh = append([]*p256.P256(nil), base.Hh...)
				m.Gg[i], m.Hh[i] = base.Hh[i], base.Gg[i]
				differ("g/h exchanged", i, m, rep(P, 0))
			}
		}},
		{"many", 24, 160, func(c *C) { manyChallenges(c) }},
	},
}

// manyChallenges hashes many lists of elements, all different, and looks at the challenges
// as a whole: they are pairwise different, and vary in enough of their bits not to be
// guessed.
func manyChallenges(c *C) {
	type stream struct {
		name  string
		order *big.Int
		vals  []*big.Int
	}
	judge := func(s stream) {
		seen := map[string]int{}
		and, or := new(big.Int), new(big.Int)
		for i, v := range s.vals {
			m := new(big.Int).Mod(v, s.order)
			if j, dup := seen[m.String()]; dup {
				c.Fail("%s: inputs %d and %d of %d have the same challenge %s", s.name, j, i, len(s.vals), m)
				return
			}
			seen[m.String()] = i
			// small negative numbers are small
			if n := new(big.Int).Sub(s.order, m); n.Cmp(m) < 0 {
				m = n
			}
			if i == 0 {
				and.Set(m)
				or.Set(m)
			}
			and.And(and, m)
			or.Or(or, m)
		}
		varying := 0
		for i := 0; i < s.order.BitLen(); i++ {
			if or.Bit(i) != and.Bit(i) {
				varying++
			}
		}
		if varying < 120 {
			c.Fail("%s: %d challenges differ in %d bits only", s.name, len(s.vals), varying)
		}
		c.CountN("challenges compared", len(s.vals))
		c.Eval("many", s.name, varying >= 120)
	}
	switch c.Idx % 4 {
	case 0, 1:
		n := 1 + c.R.Intn(5)
		a, b := stream{name: "first challenge of HashBP", order: ref.SecN}, stream{name: "second challenge of HashBP", order: ref.SecN}
		in := make([]*p256.P256, n)
		for i := range in {
			in[i] = ToP(hostilePoint(c))
		}
		pos := c.R.Intn(n)
		step := ToP(ref.SecG)
		cur := ToP(ref.Secp.Mul(ref.SecG, c.R.Below(ref.SecN)))
		for i := 0; i < 4000; i++ {
			cur = new(p256.P256).Multiply(cur, step)
			in[pos] = cur
			x, y, err := bulletproofs.HashBP(in...)
			if err != nil {
				c.Fail("HashBP: %v", err)
				return
			}
			a.vals, b.vals = append(a.vals, x), append(b.vals, y)
		}
		judge(a)
		judge(b)
	case 2:
		set := c.R.Intn(2) == 0
		s := stream{name: "HashSet", order: ref.BnN}
		if !set {
			s.name = "Hash"
		}
		gt := new(bn256.GT).ScalarMult(util.E, c.R.Below(ref.BnN))
		d := []*bn256.G2{new(bn256.G2).ScalarBaseMult(c.R.Below(ref.BnN)), new(bn256.G2).ScalarBaseMult(c.R.Below(ref.BnN))}
		pos := c.R.Intn(3)
		g2 := new(bn256.G2).ScalarBaseMult(I(1))
		for i := 0; i < 800; i++ {
			if pos == 2 {
				gt = new(bn256.GT).Add(gt, util.E)
			} else {
				d[pos] = new(bn256.G2).Add(d[pos], g2)
			}
			var v *big.Int
			var err error
			if set {
				v, err = util.HashSet(gt, d...)
			} else {
				v, err = util.Hash([]*bn256.GT{gt, util.E}, d...)
			}
			if err != nil {
				c.Fail("%s: %v", s.name, err)
				return
			}
			s.vals = append(s.vals, v)
		}
		judge(s)
	case 3:
		seen := map[string]string{}
		P := ToP(hostilePoint(c))
		a, b := []*big.Int{c.R.Below(ref.SecN)}, []*big.Int{c.R.Below(ref.SecN)}
		for i := 0; i < 400; i++ {
			cc := c.R.Below(ref.SecN)
			prm, err := bulletproofs.VerifSetupInnerProduct(nil, nil, nil, cc, 1)
			if err != nil {
				c.Fail("setupInnerProduct: %v", err)
				return
			}
			pr, err := bulletproofs.VerifProveInnerProduct(a, b, P, prm)
			if err != nil {
				c.Fail("proveInnerProduct: %v", err)
				return
			}
			u := PStr(pr.U)
			if old, dup := seen[u]; dup {
				c.Fail("hashIP: the challenges for c=%s and c=%s are equal", old, cc)
				return
			}
			seen[u] = cc.String()
		}
		c.CountN("challenges compared", len(seen))
		c.Eval("many", "hashIP")
	}
}

var coords = []string{"x.x.x", "x.x.y", "x.y.x", "x.y.y", "x.z.x", "x.z.y", "y.x.x", "y.x.y", "y.y.x", "y.y.y", "y.z.x", "y.z.y"}

func hashGT(c *C, set bool) {
	na, nd := 1, c.Idx%6
	name := "HashSet"
	if !set {
		na = c.Idx % 5
		name = "Hash"
	}
	as := make([]*bn256.GT, na)
	for i := range as {
		as[i] = new(bn256.GT).ScalarMult(util.E, c.R.Below(ref.BnN))
		if c.R.Intn(6) == 0 {
			as[i] = new(bn256.GT).ScalarMult(util.E, I(int64(c.R.Intn(2))))
		}
	}
	ds := make([]*bn256.G2, nd)
	aff := make([]*bn256.G2, nd)
	for i := range ds {
		k := c.R.Below(ref.BnN)
		if c.R.Intn(6) == 0 {
			k = I(int64(c.R.Intn(2)))
		}
		ds[i], aff[i] = g2Reps(k, c.R.Below(ref.BnN))
		if aff[i] == nil {
			c.Fail("cannot decode the encoding of G2^%s", k)
			return
		}
	}
	h := func(as []*bn256.GT, ds []*bn256.G2) string {
		var r *big.Int
		var err error
		if set {
			r, err = util.HashSet(as[0], ds...)
		} else {
			r, err = util.Hash(as, ds...)
		}
		if err != nil || r == nil {
			c.Fail("%s: %v", name, err)
			return ""
		}
		return r.Mod(r, ref.BnN).String()
	}
	h0 := h(as, ds)
	if h(as, aff) != h0 {
		c.Fail("%s depends on the representation of its arguments", name)
	}
	as2 := make([]*bn256.GT, na)
	for i := range as {
		as2[i], _ = new(bn256.GT).Unmarshal(as[i].Marshal())
		if as2[i] == nil {
			c.Fail("cannot decode a GT element")
			return
		}
	}
	if h(as2, ds) != h0 {
		c.Fail("%s depends on the representation of the GT elements", name)
	}
	c.Eval(name, "rep", na, nd)
	differ := func(kind string, i int, as []*bn256.GT, ds []*bn256.G2) {
		c.Eval(name, kind, i, na, nd)
		c.Count("changed inputs hashed")
		if h(as, ds) == h0 {
			c.Fail("%s ignores %s of element %d (%d GT, %d G2)", name, kind, i, na, nd)
		}
	}
	withA := func(i int, x *bn256.GT) []*bn256.GT {
		o := append([]*bn256.GT(nil), as...)
		o[i] = x
		return o
	}
	withD := func(i int, x *bn256.G2) []*bn256.G2 {
		o := append([]*bn256.G2(nil), ds...)
		o[i] = x
		return o
	}
	for i := range as {
		if !as[i].IsOne() {
			differ("inversion of a", i, withA(i, new(bn256.GT).Invert(as[i])), ds)
		}
		differ("replacement of a", i, withA(i, new(bn256.GT).Add(as[i], util.E)), ds)
		for _, co := range coords {
			m := Clone(as2[i])
			if v, ok := Get[*big.Int](m, "p."+co); ok && v != nil {
				v.Add(v, I(1))
				differ("coordinate "+co+" of a", i, withA(i, m), ds)
			}
		}
		if i+1 < na && fmt.Sprintf("%x", as[i].Marshal()) != fmt.Sprintf("%x", as[i+1].Marshal()) {
			o := withA(i, as[i+1])
			o[i+1] = as[i]
			differ("exchange of a", i, o, ds)
		}
		if !set {
			differ("removal of a", i, append(append([]*bn256.GT(nil), as[:i]...), as[i+1:]...), ds)
		}
	}
	for i := range ds {
		if !ds[i].IsZero() {
			differ("negation of D", i, as, withD(i, new(bn256.G2).Neg(ds[i])))
		}
		differ("replacement of D", i, as, withD(i, new(bn256.G2).Add(aff[i], new(bn256.G2).ScalarBaseMult(c.R.Below(ref.BnN)))))
		if !aff[i].IsZero() {
			for _, co := range []string{"x.x", "x.y", "y.x", "y.y"} {
				m := Clone(aff[i])
				if v, ok := Get[*big.Int](m, "p."+co); ok && v != nil {
					v.Add(v, I(1))
					differ("coordinate "+co+" of D", i, as, withD(i, m))
				}
			}
		}
		if i+1 < nd && fmt.Sprintf("%x", ds[i].Marshal()) != fmt.Sprintf("%x", ds[i+1].Marshal()) {
			o := withD(i, ds[i+1])
			o[i+1] = ds[i]
			differ("exchange of D", i, as, o)
		}
		differ("removal of D", i, as, append(append([]*bn256.G2(nil), ds[:i]...), ds[i+1:]...))
	}
	c.Sample("%s of %d GT and %d G2 elements: %.30s..", name, na, nd, h0)
}
