package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	. "verif/harness/core"
	"verif/harness/zk"
)

// equations judges a proof by the equations of the paper; the challenge must be the hash
// of the proof's elements that sh says.
func (s *sys) equations(e el, sh shape) string {
	if len(e.V) != s.l || len(e.a) != s.l || len(e.zsig) != s.l || len(e.zv) != s.l {
		return fmt.Sprintf("there are %d, %d, %d, %d elements for %d digits", len(e.V), len(e.a), len(e.zsig), len(e.zv), s.l)
	}
	if sh.challenge(e).Cmp(modN(e.c)) != 0 {
		return "the challenge is not the hash of the proof's elements"
	}
	a := &attack{sys: s, e: e}
	if enc2(a.lateD()) != enc2(e.D) {
		return "D is not C^c h^zr g^(sum of zsig_i u^i)"
	}
	for i := range e.a {
		if encT(a.lateA(i)) != encT(e.a[i]) {
			return fmt.Sprintf("a is not e(y,V)^c e(g,V)^-zsig e(g,g)^zv in digit %d", i)
		}
		if enc2(e.V[i]) == enc2(g2(I(0))) {
			return identity
		}
	}
	return ""
}

const identity = "the identity as a signature"

func encT(p *bn256.GT) string { return fmt.Sprintf("%x", p.Marshal()) }

// learn is the derivation of the challenge, from an honest proof.
func (s *sys) learn(c *C) (tmpl any, sh shape, ok bool) {
	tmpl, _, _ = s.honest(c)
	if tmpl == nil {
		return
	}
	e, ok := read(tmpl)
	if !ok {
		c.Count("proof not recognized")
		return
	}
	sh, ok = discover(e)
	if !ok {
		c.Fail("%s: the challenge of an honest proof is not the hash of its elements a, D, C and V", s.name)
	}
	return
}

// theirs judges an honest proof.
func (s *sys) theirs(c *C, what string, pr any, sh shape) {
	e, ok := read(CloneAny(pr))
	if !ok {
		c.Count("proof not recognized")
		return
	}
	why := s.equations(e, sh)
	if why == identity {
		// the random source said that the blinding of the signature is 0; such a proof is
		// rejected, and nobody will ever see one
		c.Count("blinded signature is the identity")
		return
	}
	c.Eval(s.name, what, s.u, s.l, why)
	c.Count("honest proofs judged by the equations")
	if why != "" {
		c.Fail("%s (u=%d, l=%d, %s): %s", s.name, s.u, s.l, what, why)
	}
}

// own makes a valid proof of the digits with without the code under test.
func (s *sys) own(c *C, tmpl any, sh shape, with []int64, r *big.Int, mode int) (el, string) {
	var x []*big.Int
	for _, m := range with {
		x = append(x, I(m))
	}
	a := s.prepare(c, tmpl, sh, x, with)
	name := "random"
	redo := func() {
		a.e.D, a.e.C = g2mul(s.H, a.m), g2mul(s.H, a.r)
		for i := range x {
			a.e.V[i] = g2mul(s.sig(with[i]), a.v[i])
			a.e.a[i] = gtadd(gtmul(bn256.Pair(gen1, a.e.V[i]), fneg(a.s[i])), gtmul(gtE, a.t[i]))
			a.e.D = g2add(a.e.D, g2(fm(a.s[i], s.weight(i))))
			a.e.C = g2add(a.e.C, g2(fm(a.x[i], s.weight(i))))
		}
	}
	k := c.R.Intn(len(x))
	switch mode % 11 {
	case 1:
		a.m, name = I(0), "m = 0"
	case 2:
		a.r, name = I(0), "r = 0"
	case 3:
		a.s[k], name = I(0), "s_k = 0"
	case 4:
		a.t[k], name = I(0), "t_k = 0"
	case 5:
		a.v[k], name = I(1), "v_k = 1"
	case 6:
		a.s[k], a.t[k], a.v[k], name = fneg(I(1)), I(1), fneg(I(1)), "s, t, v = -1, 1, -1"
	case 7:
		a.s[k], a.t[k], name = I(0), I(0), "s_k = t_k = 0"
	case 8:
		a.m, name = I(0), "D = 1"
		for i := range a.s {
			a.s[i] = I(0)
		}
	case 9:
		name = "C = 1"
		a.r = I(0)
		if a.ul != nil && r == nil {
			for i := range x {
				x[i], with[i] = I(0), 0
			}
		}
	case 10:
		a.m, a.r, name = I(1), I(1), "one"
		for i := range a.s {
			a.s[i], a.t[i], a.v[i] = I(1), I(1), I(1)
		}
	}
	if r != nil {
		a.r = r
	}
	redo()
	a.respond(a.challenge())
	return a.e, name
}

func (s *sys) ours(c *C, tmpl any, sh shape, with []int64, mode int) {
	e, name := s.own(c, tmpl, sh, with, nil, mode)
	o := s.verify(e.write(tmpl))
	c.Eval(s.name, "ours", name, s.u, s.l, o.Kind())
	c.Count("verdicts compared")
	if !o.Accepted() {
		c.Fail("%s (u=%d, l=%d, digits %v, %s): the harness's proof satisfies every equation, but verification says %s (by the equations: %q)", s.name, s.u, s.l, with, name, o, s.equations(e, sh))
		return
	}
	// altered such that the challenge is still the hash, or not
	for t := 0; t < 3; t++ {
		q := e.copy()
		what := ""
		i := c.R.Intn(s.l)
		d := c.R.Scalar(order)
		switch c.R.Intn(8) {
		case 0:
			q.D, what = g2add(q.D, g2(d)), "D"
		case 1:
			q.C, what = g2add(q.C, g2(d)), "C"
		case 2:
			q.zr, what = fa(q.zr, d), "zr"
		case 3:
			q.zsig[i], what = fa(q.zsig[i], d), "zsig"
		case 4:
			q.zv[i], what = fa(q.zv[i], d), "zv"
		case 5:
			q.a[i], what = gtadd(q.a[i], gtmul(gtE, d)), "a"
		case 6:
			q.V[i], what = g2mul(q.V[i], d), "V"
		case 7:
			q.c, what = fa(q.c, d), "c"
		}
		if c.R.Bool() {
			q.c = sh.challenge(q)
			what += ", challenge anew"
		}
		why := s.equations(q, sh)
		o := s.verify(q.write(tmpl))
		c.Eval(s.name, "altered", what, why != "", o.Kind())
		c.Count("verdicts compared")
		if (why == "") != o.Accepted() {
			c.Fail("%s: altered %s: the equations say %q, verification says %s", s.name, what, why, o)
		}
	}
}

// counts makes proofs that satisfy the equations for as many digits as there are, which
// are not as many as the parameters say.
func (s *sys) counts(c *C, tmpl any, sh shape, with []int64, variant int) {
	var x []*big.Int
	for _, m := range with {
		x = append(x, I(m))
	}
	extra := 1 + c.R.Intn(3)
	var e el
	name := ""
	switch variant % 5 {
	case 0, 1:
		a := s.prepare(c, tmpl, sh, x, with)
		for i := 0; i < extra; i++ {
			a.e.V = append(a.e.V, g2mul(s.sig(s.msgs[c.R.Intn(len(s.msgs))]), c.R.Below(order)))
			a.e.a = append(a.e.a, gtmul(gtE, c.R.Below(order)))
		}
		a.respond(a.challenge())
		e, name = a.e, "more first messages"
		if variant%5 == 1 {
			name = "more digits"
			for i := 0; i < extra; i++ {
				e.zsig, e.zv = append(e.zsig, I(0)), append(e.zv, c.R.Below(order))
			}
		}
	case 2:
		a := s.prepare(c, tmpl, sh, x, with)
		a.respond(a.challenge())
		e, name = a.e, "more responses"
		for i := 0; i < extra; i++ {
			e.zsig, e.zv = append(e.zsig, I(0)), append(e.zv, c.R.Below(order))
		}
		if c.R.Bool() {
			e.zsig, name = e.zsig[:s.l], "more zv"
		}
	case 3:
		a := s.prepare(c, tmpl, sh, x, with)
		a.respond(a.challenge())
		e, name = a.e, "one digit twice"
		e.V, e.a = append(e.V, e.V[s.l-1]), append(e.a, e.a[s.l-1])
		e.zsig, e.zv = append(e.zsig, e.zsig[s.l-1]), append(e.zv, e.zv[s.l-1])
	case 4:
		short := *s
		short.l = c.R.Intn(s.l)
		a := short.prepare(c, tmpl, sh, x[:short.l], with[:short.l])
		a.respond(a.challenge())
		e, name = a.e, "fewer digits"
		if short.l == 0 {
			name = "no digits"
		}
	}
	o := s.verify(e.write(tmpl))
	c.Eval(s.name, name, s.u, s.l, o.Kind())
	c.Count("proofs with another number of digits judged")
	if o.Accepted() {
		c.Fail("%s (u=%d, l=%d): a proof with %d, %d, %d, %d elements (%s) verifies", s.name, s.u, s.l, len(e.V), len(e.a), len(e.zsig), len(e.zv), name)
	}
}

func digitsOf(x *big.Int, u int64, l int) (out []int64) {
	x = new(big.Int).Set(x)
	d := new(big.Int)
	for i := 0; i < l; i++ {
		x.DivMod(x, I(u), d)
		out = append(out, d.Int64())
	}
	return
}

var p41 = Prop{
	ID:   "P41",
	Rule: "honest set, UL and interval proofs (structured secrets, any blinding, uniform, hostile and constant randomness) are judged by the equations of the paper, the challenge included; proofs by a prover of the harness (random and degenerate, but valid, choices; both halves of interval proofs) are judged by the code, altered ones by both; interval proofs with one half altered, or of two valid halves that do not belong together, must not verify; proofs with more or fewer digits than the parameters say must not verify. Oracle: the verdicts agree. Distinct: system, size, choices or change, verdicts.",
	Min:  60,
	Suites: []Suite{
		{"ul", 20, 260, func(c *C) {
			u, l := int64(2+c.R.Intn(5)), int64(1+c.Idx%4)
			if c.Idx%5 == 4 {
				u, l = int64(50+c.R.Intn(60)), 1+int64(c.Idx%2)
			}
			s := newULSys(c, u, l)
			if s == nil {
				return
			}
			tmpl, sh, ok := s.learn(c)
			if !ok {
				return
			}
			c.Eval("challenge", fmt.Sprint(sh))
			for t := 0; t < 3; t++ {
				kind, x := ulSecret(c.R, u, l, c.Idx+5*t)
				if v, _ := ulExpect(x, u, l); !v {
					x, kind = c.R.Below(power(u, l)), "inside"
				}
				name, r := blinding(c.R)
				c.Install([]int{0, 1, 0}[t], order)
				pr, why := proveUL(s.ul, x, r)
				c.Install(0, order)
				if pr == nil {
					c.Fail("ProveUL(%s), u=%d, l=%d: %s", x, u, l, why)
					return
				}
				s.theirs(c, fmt.Sprintf("secret %s, blinding %s", kind, name), pr, sh)
				s.ours(c, tmpl, sh, digitsOf(c.R.Below(power(u, l)), u, int(l)), c.Idx+3*t)
			}
			for t := range 5 {
				s.counts(c, tmpl, sh, digitsOf(c.R.Below(power(u, l)), u, int(l)), t)
			}
			c.Sample("u=%d l=%d", u, l)
		}},
		{"set", 20, 260, func(c *C) {
			set := []int64{hostileInt64(c.R), 7, -9, hostileInt64(c.R)}
			s := newSetSys(c, set[c.R.Intn(3):])
			if s == nil {
				return
			}
			tmpl, sh, ok := s.learn(c)
			if !ok {
				return
			}
			c.Eval("challenge", fmt.Sprint(sh))
			for t := 0; t < 4; t++ {
				m := s.msgs[c.R.Intn(len(s.msgs))]
				name, r := blinding(c.R)
				c.Install([]int{0, 1, 0, 0}[t], order)
				pr, why := proveSet(s.set, m, r)
				c.Install(0, order)
				if pr == nil {
					c.Fail("ProveSet(%d): %s", m, why)
					return
				}
				s.theirs(c, fmt.Sprintf("secret %s, blinding %s", sizeClass(m), name), pr, sh)
				s.ours(c, tmpl, sh, []int64{s.msgs[c.R.Intn(len(s.msgs))]}, c.Idx+3*t)
			}
		}},
		{"intervals", 8, 100, func(c *C) {
			a := int64(c.R.Intn(400)) - 200
			b := a + 3 + int64(c.R.Intn(300))
			if b < 5 {
				b = 5 + int64(c.R.Intn(60))
			}
			iv := zk.NewInterval()
			if err, pan := ivSetup(iv, a, b); err != nil || pan != nil {
				c.Fail("Setup(%d,%d): %v %v", a, b, err, pan)
				return
			}
			ul := iv.UL()
			u, l, ok := ul.Size()
			if !ok {
				c.Count("parameters not recognized")
				return
			}
			s := &sys{name: "half of an interval proof", ul: ul, params: ul.P, u: u, l: int(l)}
			for i := int64(0); i < u; i++ {
				s.msgs = append(s.msgs, i)
			}
			m, ok := Get[map[string]*bn256.G2](ul.P, "signatures")
			s.sig = func(k int64) *bn256.G2 { return Clone(m[fmt.Sprint(k)]) }
			if s = s.keys(c, ok); s == nil {
				return
			}
			tmpl, sh, ok := s.learn(c)
			if !ok {
				return
			}
			for t := 0; t < 2; t++ {
				x := new(big.Int).Add(I(a), c.R.Below(I(b-a)))
				if t == 1 {
					x = []*big.Int{I(a), I(b - 1)}[c.R.Intn(2)]
				}
				name, r := blinding(c.R)
				if err := iv.Prove(new(big.Int).Set(x), new(big.Int).Set(r)); err != nil {
					c.Fail("Prove(%s): %v", x, err)
					return
				}
				for i := 0; i < 2; i++ {
					s.theirs(c, fmt.Sprintf("half %d, blinding %s", i, name), iv.Half(i), sh)
				}
				r = c.R.Below(order)
				v := new(big.Int).Sub(x, I(b))
				e1, k1 := s.own(c, tmpl, sh, digitsOf(v.Add(v, power(u, l)), u, int(l)), r, c.Idx*2+t)
				e2, k2 := s.own(c, tmpl, sh, digitsOf(v.Sub(x, I(a)), u, int(l)), r, c.Idx*3+t)
				q := &zk.Interval{V: Clone(iv.V)}
				if !q.SetHalf(0, e1.write(tmpl)) || !q.SetHalf(1, e2.write(tmpl)) {
					c.Count("proof not recognized")
					return
				}
				o := zk.Do(func() (bool, error) { return q.Verify() })
				c.Eval("own halves", k1, k2, u, l, o.Kind())
				c.Count("verdicts compared")
				if !o.Accepted() {
					c.Fail("[%d,%d), u=%d, l=%d: two valid halves about %s with one blinding factor (%s, %s), but verification says %s", a, b, u, l, x, k1, k2, o)
					continue
				}
				// one half altered, or valid halves that are not about one secret and blinding factor
				digits := func(j int, x *big.Int) []int64 {
					v := new(big.Int).Sub(x, I(b))
					v.Add(v, power(u, l))
					if j == 1 {
						v.Sub(x, I(a))
					}
					return digitsOf(v, u, int(l))
				}
				for j := 0; j < 2; j++ {
					for kind := 0; kind < 5; kind++ {
						h := [2]el{e1.copy(), e2.copy()}
						what := ""
						switch d := c.R.Below(order); kind {
						case 0:
							h[j].zr, what = fa(h[j].zr, d), "zr"
						case 1:
							n := c.R.Intn(s.l)
							h[j].zsig[n], what = fa(h[j].zsig[n], d), "zsig"
						case 2:
							n := c.R.Intn(s.l)
							h[j].zv[n], what = fa(h[j].zv[n], d), "zv"
						case 3:
							h[j], _ = s.own(c, tmpl, sh, digits(j, x), d, 0)
							what = "another blinding factor"
						case 4:
							y := new(big.Int).Add(I(a), c.R.Below(I(b-a)))
							if y.Cmp(x) == 0 {
								continue
							}
							h[j], _ = s.own(c, tmpl, sh, digits(j, y), r, 0)
							what = "another secret"
						}
						if !q.SetHalf(0, h[0].write(tmpl)) || !q.SetHalf(1, h[1].write(tmpl)) {
							return
						}
						o := zk.Do(func() (bool, error) { return q.Verify() })
						c.Eval("half altered", j, what, o.Kind())
						c.Count("verdicts compared")
						if o.Accepted() {
							c.Fail("[%d,%d), u=%d, l=%d: a proof about %s with %s in half %d verifies", a, b, u, l, x, what, j)
						}
					}
				}
			}
		}},
	},
}
