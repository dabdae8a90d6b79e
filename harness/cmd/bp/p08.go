package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/zk"
)

func forged(c *C, n int, name string, q *proof) {
	var o zk.Outcome
	o = verify(q)
	c.Eval("forgery", n, name, o.Kind())
	c.Count("forgeries judged")
	if o.Accepted() {
		c.Fail("forgery accepted (N=%d): %s", n, name)
	}
}

// calibrate finds the transcript in use and checks that this file's prover can make
// valid proofs, such that a rejected forgery means something.
func calibrate(c *C, n int) (params, transcript, bool) {
	p, ok := setup(c, n)
	if !ok {
		return p, fullTranscript, false
	}
	pr := prove(c, c.R.Bits(n), p)
	if pr == nil {
		return p, fullTranscript, false
	}
	t, found := discover(pr, c.Idx%16 == 15)
	if !found {
		c.Count("transcript not recognized")
	} else {
		c.Count("transcript " + t.String())
	}
	a := newAdv(c, p, t)
	a.v = c.R.Bits(n)
	a.digits(a.v)
	a.inOrder()
	o := verify(a.assemble(a.ip()))
	if !o.Accepted() {
		c.Count("the harness's own honest proof is rejected")
	} else {
		c.Eval("calibrated", n)
		c.Count("own honest proofs accepted")
	}
	return p, t, true
}

// value is a secret outside of [0,2^n) by residue.
func badValue(c *C, n int) *big.Int {
	for {
		v := outside(c.R, n, c.R.Intn(20))
		if !congruentInside(v, n) {
			return ModN(v)
		}
	}
}

// badDigits sets digits that do not prove that v is in range, in one of several ways.
func (a *adv) badDigits(k int) string {
	a.v = badValue(a.c, a.n)
	a.digits(a.v)
	name := "digits of v mod 2^N"
	switch k % 6 {
	case 1: // <aL,2^n> = v with one large digit
		i := a.c.R.Intn(a.n)
		rest := fa(a.v, fneg(dot(a.aL, vpow(I(2), a.n))))
		a.aL[i] = fa(a.aL[i], fm(rest, finv(Pow2(i))))
		a.complement()
		name = "large digit"
	case 2: // aL.aR = 0 but aR is not aL-1
		i := a.c.R.Intn(a.n)
		rest := fa(a.v, fneg(dot(a.aL, vpow(I(2), a.n))))
		a.aL[i] = fa(a.aL[i], fm(rest, finv(Pow2(i))))
		a.complement()
		a.aR[i] = I(0)
		name = "large digit with aR=0"
	case 3:
		a.aL = vrand(a.c, a.n)
		a.complement()
		a.v = dot(a.aL, vpow(I(2), a.n))
		name = "random digits"
	case 4:
		a.aL, a.aR = vrand(a.c, a.n), vrand(a.c, a.n)
		name = "unrelated digits"
	case 5:
		for i := range a.aL {
			a.aL[i] = I(int64(a.c.R.Intn(2)))
		}
		a.complement()
		name = "binary digits of another value"
		if ModN(dot(a.aL, vpow(I(2), a.n))).Cmp(a.v) == 0 {
			a.v = fa(a.v, I(1))
		}
	}
	return name
}

var p08 = Prop{
	ID:   "P08",
	Rule: "a dishonest prover (first calibrated: it finds the transcript in use by an honest proof, and its own honest proof must verify) that violates exactly one of the verification equations, uses own generators, base u, lengths or inner-product statements, transplants arguments, lies about signs, or chooses V, A, S, T1 or T2 after the challenges that fail to bind them. Oracle: Verify does not return true for a value not known to be in range. Distinct: (N, strategy, outcome).",
	Min:  60,
	Suites: []Suite{
		{"one equation violated", 60, 700, func(c *C) {
			n := []int{1, 2, 4, 8, 2, 4}[c.Idx%6]
			p, t, ok := calibrate(c, n)
			if !ok {
				return
			}
			for k := 0; k < 6; k++ {
				fresh := func() (*adv, string) {
					a := newAdv(c, p, t)
					name := a.badDigits(k)
					a.inOrder()
					return a, name
				}
				// only (65) is violated
				a, name := fresh()
				forged(c, n, name, a.assemble(a.ip()))
				// only the argument is false: tprime as (65) wants it
				a, _ = fresh()
				true_ := a.tprime
				a.tprime = a.target()
				if a.tprime.Cmp(true_) != 0 {
					forged(c, n, name+", tprime patched", a.assemble(a.ip()))
					// the argument is about the true inner product
					ip := argument(c, a.p.Gg, a.hp, a.l, a.r, a.Commit, true_, nil)
					forged(c, n, name+", tprime patched, argument for another claim", a.assemble(ip))
					// only (67) is violated
					a.fixLR(a.tprime)
					c67 := a.Commit
					a.commitLR()
					forged(c, n, name+", commitment of patched vectors", a.assemble(a.ip()))
					// (65) and (67) hold, the argument is about another commitment
					good := a.ip()
					a.Commit = c67
					forged(c, n, name+", argument about another commitment", a.assemble(good))
					// the same, by an argument over chosen generators
					for _, q := range ownGenerators(a) {
						forged(c, n, name+", "+q.name, q.q)
					}
					// mu patched instead
					a.commitLR()
					ip = a.ip()
					a.mu = fa(a.mu, I(1))
					forged(c, n, name+", mu shifted", a.assemble(ip))
				}
				// taux instead of tprime
				a, _ = fresh()
				a.taux = c.R.Below(order)
				forged(c, n, name+", random taux", a.assemble(a.ip()))
			}
			c.Sample("N=%d %s", n, t)
		}},
		{"chosen parameters", 48, 500, func(c *C) {
			n := []int{1, 2, 4, 8}[c.Idx%4]
			p, t, ok := calibrate(c, n)
			if !ok {
				return
			}
			k := new(big.Int).Add(c.R.Below(new(big.Int).Sub(order, I(2))), I(1))
			subst := map[string]func(q *params){
				"H with known logarithm":     func(q *params) { q.H = gmul(k) },
				"H = g":                      func(q *params) { q.H = gmul(I(1)) },
				"H = infinity":               func(q *params) { q.H = inf() },
				"Gg[0] with known logarithm": func(q *params) { q.Gg[0] = gmul(k) },
				"Hh[0] with known logarithm": func(q *params) { q.Hh[0] = gmul(k) },
				"last Gg = last Hh":          func(q *params) { q.Gg[n-1] = cp(q.Hh[n-1]) },
				"last Gg = H":                func(q *params) { q.Gg[n-1] = cp(q.H) },
				"last Gg = infinity":         func(q *params) { q.Gg[n-1] = inf() },
				"last Hh = infinity":         func(q *params) { q.Hh[n-1] = inf() },
				"last Hh = H":                func(q *params) { q.Hh[n-1] = cp(q.H) },
				"all Gg with known logarithm": func(q *params) {
					for i := range q.Gg {
						q.Gg[i] = gmul(c.R.Below(order))
					}
				},
				"all Hh with known logarithm": func(q *params) {
					for i := range q.Hh {
						q.Hh[i] = gmul(c.R.Below(order))
					}
				},
				"lists exchanged": func(q *params) { q.Gg, q.Hh = q.Hh, q.Gg },
			}
			if n > 1 {
				subst["Gg[1] = Gg[0]"] = func(q *params) { q.Gg[1] = cp(q.Gg[0]) }
				subst["Gg reordered"] = func(q *params) { q.Gg[0], q.Gg[n-1] = q.Gg[n-1], q.Gg[0] }
				subst["Hh reordered"] = func(q *params) { q.Hh[0], q.Hh[n-1] = q.Hh[n-1], q.Hh[0] }
			}
			for _, name := range sortedKeys(subst) {
				q := *Clone(&p)
				subst[name](&q)
				// by the prover under test, and by ours, which is the same but for the range
				if pr, _ := tryProve(c.R.Bits(n), q); pr != nil {
					forged(c, n, "library prover, "+name, pr)
				}
				a := newAdv(c, q, t)
				a.v = c.R.Bits(n)
				a.digits(a.v)
				a.inOrder()
				pr := a.assemble(a.ip())
				forged(c, n, name, pr)
				// the outer parameters are the public ones, the argument's are not
				pr.Params = p
				forged(c, n, name+", true outer parameters", pr)
			}
			// a proof for [0,2^(2N)) presented as one for [0,2^N)
			if p2, ok := setup(c, 2*n); ok {
				v := new(big.Int).Add(Pow2(n), c.R.Bits(n))
				if pr, _ := tryProve(v, p2); pr != nil {
					q := Clone(pr)
					q.Params = p
					forged(c, n, "proof of a larger range with the parameters of the smaller one", q)
					q = Clone(pr)
					q.Params.N = int64(n)
					forged(c, n, "proof of a larger range with smaller N", q)
					q.InnerProductProof.N = int64(n)
					forged(c, n, "proof of a larger range with smaller N throughout", q)
					q.Params.Gg, q.Params.Hh = q.Params.Gg[:n], q.Params.Hh[:n]
					forged(c, n, "proof of a larger range with shorter lists", q)
				}
				q2 := *Clone(&p2)
				q2.N = int64(n)
				if pr, _ := tryProve(v, q2); pr != nil {
					forged(c, n, "prover with longer lists", pr)
				}
			}
		}},
		{"argument", 48, 500, func(c *C) {
			n := []int{2, 4, 1, 8}[c.Idx%4]
			p, t, ok := calibrate(c, n)
			if !ok {
				return
			}
			a := newAdv(c, p, t)
			name := a.badDigits(c.Idx / 4)
			a.inOrder()
			a.tprime = a.target()
			a.Commit = a.commit67()
			// the base u of the argument
			for what, u := range map[string]*p256.P256{"infinity": inf(), "g": gmul(I(1)), "Gg[0]": cp(p.Gg[0]), "H": cp(p.H)} {
				ip := argument(c, p.Gg, a.hp, a.l, a.r, a.Commit, a.tprime, func(q *bulletproofs.InnerProductParams) { q.Uu = u })
				forged(c, n, name+", tprime patched, u="+what, a.assemble(ip))
			}
			// U itself
			ip := a.ip()
			for what, u := range map[string]*p256.P256{"infinity": inf(), "g": gmul(I(1)), "inverse": neg(ip.U)} {
				q := ip
				q.U = u
				forged(c, n, name+", tprime patched, U="+what, a.assemble(q))
			}
			// false claims that the argument's own parameters hide
			for _, cl := range []*big.Int{dot(a.l, a.r), I(0), I(1)} {
				ip := argument(c, p.Gg, a.hp, a.l, a.r, a.Commit, cl, nil)
				forged(c, n, name+", argument for its own claim", a.assemble(ip))
				ip.Params.Cc = a.tprime
				forged(c, n, name+", argument for its own claim, stated tprime", a.assemble(ip))
			}
			// arguments of valid proofs
			if pr := prove(c, c.R.Bits(n), p); pr != nil {
				forged(c, n, name+", argument of a valid proof", a.assemble(Clone(pr).InnerProductProof))
				q := a.assemble(Clone(pr).InnerProductProof)
				q.Commit, q.Tprime = pr.Commit, pr.Tprime
				forged(c, n, name+", argument, Commit and Tprime of a valid proof", q)
				q = a.assemble(Clone(pr).InnerProductProof)
				q.Commit, q.Tprime, q.Mu, q.Taux = pr.Commit, pr.Tprime, pr.Mu, pr.Taux
				forged(c, n, name+", responses of a valid proof", q)
				q = Clone(pr)
				q.V = a.V
				forged(c, n, "V replaced in a valid proof", q)
				// the value shifted by 2^N at several places
				sh := Clone(pr)
				sh.V = add(sh.V, gmul(Pow2(n)))
				forged(c, n, "V shifted by g^(2^N)", sh)
				_, z := t.challengeYZ([]*p256.P256{sh.V, sh.A, sh.S})
				sh.Tprime = fa(sh.Tprime, fm(z, z, Pow2(n)))
				forged(c, n, "V shifted by g^(2^N), tprime adjusted", sh)
				_, z = t.challengeYZ([]*p256.P256{pr.V, pr.A, pr.S})
				sh.Tprime = fa(pr.Tprime, fm(z, z, Pow2(n)))
				forged(c, n, "V shifted by g^(2^N), tprime adjusted for the old challenge", sh)
			}
			// signs: the vectors of the inverse commitment have the same inner product
			a = newAdv(c, p, t)
			a.v = c.R.Bits(n)
			a.digits(a.v)
			a.inOrder()
			a.l, a.r, a.mu = vscale(a.l, I(-1)), vscale(a.r, I(-1)), fneg(a.mu)
			a.commitLR()
			forged(c, n, "inverse commitment", a.assemble(a.ip()))
			// N = 1, no rounds, with generators of the prover's choice
			for _, q := range ownGenerators(a) {
				forged(c, n, q.name, q.q)
			}
			// commitments to nothing
			a = newAdv(c, p, t)
			a.v, a.gamma, a.alpha, a.rho, a.tau1, a.tau2 = badValue(c, n), I(0), I(0), I(0), I(0), I(0)
			a.aL, a.aR, a.sL, a.sR = vconst(I(0), n), vconst(I(0), n), vconst(I(0), n), vconst(I(0), n)
			a.inOrder()
			forged(c, n, "zero vectors", a.assemble(a.ip()))
			a.tprime = a.target()
			forged(c, n, "zero vectors, tprime patched", a.assemble(a.ip()))
			a.l, a.r = vconst(I(0), n), vconst(I(0), n)
			a.commitLR()
			forged(c, n, "zero argument", a.assemble(a.ip()))
		}},
		{"degenerate components", 48, 500, func(c *C) {
			n := []int{1, 2, 4, 2}[c.Idx%4]
			p, t, ok := calibrate(c, n)
			if !ok {
				return
			}
			degenerate(c, p, t)
		}},
		{"late choices", 64, 700, func(c *C) {
			n := []int{1, 2, 4, 2}[c.Idx%4]
			p, t, ok := calibrate(c, n)
			if !ok {
				return
			}
			late(c, p, t)
			c.Sample("N=%d %s", n, t)
		}},
		{"large", 12, 120, func(c *C) {
			n := []int{16, 32}[c.Idx%2]
			p, t, ok := calibrate(c, n)
			if !ok {
				return
			}
			a := newAdv(c, p, t)
			name := a.badDigits(c.Idx / 2)
			a.inOrder()
			forged(c, n, name, a.assemble(a.ip()))
			a.tprime = a.target()
			forged(c, n, name+", tprime patched", a.assemble(a.ip()))
			a.fixLR(a.tprime)
			a.commitLR()
			forged(c, n, name+", commitment of patched vectors", a.assemble(a.ip()))
			a.Commit = a.commit67()
			forged(c, n, name+", commitment patched", a.assemble(a.ip()))
		}},
	},
}

type namedProof struct {
	name string
	q    *proof
}

// ownGenerators makes arguments that are valid for generators of the prover's choice, for
// the Commit and Tprime of a.
func ownGenerators(a *adv) []namedProof {
	var out []namedProof
	for _, n := range []int{1, a.n} {
		gg, hh, l, r := []*p256.P256{a.Commit}, []*p256.P256{inf()}, []*big.Int{I(1)}, []*big.Int{a.tprime}
		for len(gg) < n {
			gg, hh, l, r = append(gg, inf()), append(hh, inf()), append(l, I(0)), append(r, I(0))
		}
		ip := argument(a.c, gg, hh, l, r, a.Commit, a.tprime, nil)
		out = append(out, namedProof{fmt.Sprintf("argument of size %d over chosen generators", n), a.assemble(ip)})
		q := a.assemble(ip)
		q.Params.InnerProductParams = ip.Params
		out = append(out, namedProof{fmt.Sprintf("argument of size %d over chosen generators, also in the parameters", n), q})
	}
	return out
}

// solve65V is the V that satisfies (65) for everything else.
func (a *adv) solve65V() *p256.P256 {
	w := add(gmul(a.tprime), mul(a.p.H, a.taux))
	w = add(w, neg(gmul(deltaYZ(a.y, a.z, a.n))))
	w = add(w, neg(add(mul(a.T1, a.x), mul(a.T2, fm(a.x, a.x)))))
	return mul(w, finv(fm(a.z, a.z)))
}

// late runs the strategies that a transcript with a missing element allows.
func late(c *C, p params, t transcript) {
	n := int(p.N)
	judge := func(name string, a *adv) { forged(c, n, name+" with "+t.String(), a.assemble(a.ip())) }
	start := func() *adv {
		a := newAdv(c, p, t)
		a.v = badValue(c, n)
		a.digits(a.v)
		return a
	}
	miss := func(i int) (yz, x bool) { return !has(t.yz, i), !has(t.x, i) }
	// The prover behaves as if an element was not bound: it commits to something else
	// first. Where the transcript does bind it, this is an ordinary forgery.
	vy, vx := miss(0)
	ay, ax := miss(1)
	_, sx := miss(2)
	sy, _ := miss(2)
	_, t1x := miss(3)
	_, t2x := miss(4)

	// V last
	a := start()
	a.commitV()
	a.commitA()
	a.commitS()
	a.askYZ()
	a.polynomials()
	a.commitT(c.R.Below(order), c.R.Below(order))
	a.askX()
	a.respond()
	a.V = a.solve65V()
	judge(fmt.Sprintf("V last (bound: %v)", !(vy && vx)), a)

	// V after y and z: the value that random digits happen to prove
	a = start()
	a.aL, a.aR = vrand(c, n), vrand(c, n)
	a.commitV()
	a.commitA()
	a.commitS()
	a.askYZ()
	a.polynomials()
	a.v = fm(fa(a.t0, fneg(deltaYZ(a.y, a.z, n))), finv(fm(a.z, a.z)))
	a.commitV()
	a.commitT(a.t1, a.t2)
	a.askX()
	a.respond()
	judge(fmt.Sprintf("V after y,z (bound: %v)", !vy), a)

	// A after y and z: digits that satisfy the equation for these challenges only
	a = start()
	a.commitV()
	a.commitA()
	a.commitS()
	a.askYZ()
	want := fa(fm(a.z, a.z, a.v), deltaYZ(a.y, a.z, n))
	a.aL, a.aR = vrand(c, n), vrand(c, n)
	a.solveT0(want)
	a.commitA()
	a.polynomials()
	a.commitT(a.t1, a.t2)
	a.askX()
	a.respond()
	judge(fmt.Sprintf("A after y,z (bound: %v)", !ay), a)

	// A or S last, to satisfy (67) for vectors with the right inner product
	for _, which := range []string{"A", "S"} {
		a = start()
		a.commitV()
		a.commitA()
		a.commitS()
		a.askYZ()
		a.polynomials()
		a.commitT(a.t1, a.t2)
		a.askX()
		a.respond()
		a.l, a.r = vrand(c, n), vrand(c, n)
		a.tprime = a.target()
		a.fixLR(a.tprime)
		a.commitLR()
		d := add(a.Commit, neg(a.commit67()))
		if which == "A" {
			a.A = add(a.A, d)
			judge(fmt.Sprintf("A last (bound: %v)", !(ay && ax)), a)
		} else {
			a.S = add(a.S, mul(d, finv(a.x)))
			judge(fmt.Sprintf("S last (bound: %v)", !(sy && sx)), a)
		}
	}

	// T1 or T2 after x
	for i, missing := range []bool{t1x, t2x} {
		a = start()
		a.inOrder()
		d := fa(a.tprime, fneg(a.target()))
		if i == 0 {
			a.tc1 = fa(a.tc1, fm(d, finv(a.x)))
		} else {
			a.tc2 = fa(a.tc2, fm(d, finv(fm(a.x, a.x))))
		}
		a.commitT(a.tc1, a.tc2)
		judge(fmt.Sprintf("T%d after x (bound: %v)", i+1, !missing), a)
	}

	// x first: T1, T2 before anything else; the effective digit e solves e(e-1) = t1 x + t2 x^2
	for try := 0; try < 12; try++ {
		a = start()
		a.commitV()
		a.commitA()
		a.commitS()
		a.commitT(c.R.Below(order), c.R.Below(order))
		a.askX()
		K := fa(fm(a.tc1, a.x), fm(a.tc2, a.x, a.x))
		disc := fa(I(1), fm(I(4), K))
		root := new(big.Int).ModSqrt(disc, order)
		if root == nil {
			continue
		}
		e := fm(fa(I(1), root), finv(I(2)))
		eff := vconst(I(0), n)
		eff[0] = e
		a.v = e
		effR := vadd(eff, vconst(I(-1), n))
		if ax || !sx { // choose A late
			a.aL = vadd(eff, vscale(a.sL, fneg(a.x)))
			a.aR = vadd(effR, vscale(a.sR, fneg(a.x)))
		} else { // choose S late
			a.sL = vscale(vadd(eff, vscale(a.aL, I(-1))), finv(a.x))
			a.sR = vscale(vadd(effR, vscale(a.aR, I(-1))), finv(a.x))
		}
		a.commitV()
		a.commitA()
		a.commitS()
		a.askYZ()
		a.respond()
		judge(fmt.Sprintf("T1, T2 before V, A, S (bound: %v)", !(vx && (ax || sx))), a)
		break
	}

}

// solveT0 changes aR such that t0 has the wanted value.
func (a *adv) solveT0(want *big.Int) {
	a.polynomials()
	l0 := fa(a.aL[0], fneg(a.z))
	d := fa(want, fneg(a.t0))
	// t0 contains l0 * y^0 * aR[0]
	a.aR[0] = fa(a.aR[0], fm(d, finv(l0)))
}

// degenerate makes proofs with special values in place of one component, chosen before
// the challenge that follows it, such that all but one equation hold where possible.
func degenerate(c *C, p params, t transcript) {
	n := int(p.N)
	special := func(a *adv) map[string]*p256.P256 {
		m := map[string]*p256.P256{"infinity": inf(), "g": gmul(I(1)), "1/g": gmul(I(-1)), "H": cp(p.H), "Gg[0]": cp(p.Gg[0]), "Hh[0]": cp(p.Hh[0])}
		for name, q := range map[string]*p256.P256{"V": a.V, "A": a.A, "S": a.S, "T1": a.T1} {
			if q != nil {
				m[name] = cp(q)
				m["1/"+name] = neg(q)
			}
		}
		return m
	}
	for _, which := range []string{"V", "A", "S", "T1", "T2"} {
		names := sortedKeys(special(newAdv(c, p, t)))
		names = append(names, "V", "1/V", "A", "1/A", "S", "1/S", "T1", "1/T1")
		for k, val := range names {
			if k > 0 && c.R.Intn(2) == 0 { // infinity always
				continue
			}
			if k == 0 {
				val = "infinity"
			}
			a := newAdv(c, p, t)
			claim := "true claim"
			a.v = c.R.Bits(n)
			a.digits(a.v)
			if c.R.Intn(3) == 0 {
				claim = a.badDigits(c.R.Intn(6))
			}
			replaced := false
			set := func(now string, at **p256.P256) {
				if now == which {
					if q := special(a)[val]; q != nil && PStr(q) != PStr(*at) {
						*at = q
						replaced = true
					}
				}
			}
			a.commitV()
			set("V", &a.V)
			a.commitA()
			set("A", &a.A)
			a.commitS()
			set("S", &a.S)
			a.askYZ()
			a.polynomials()
			a.commitT(a.t1, a.t2)
			set("T1", &a.T1)
			set("T2", &a.T2)
			a.askX()
			a.respond()
			if !replaced {
				continue
			}
			forged(c, n, fmt.Sprintf("%s = %s, %s", which, val, claim), a.assemble(a.ip()))
		}
	}
	// special responses
	for _, which := range []string{"taux", "mu", "tprime", "tprime and l", "l", "r", "Commit"} {
		for _, k := range []*big.Int{I(0), I(1), I(-1), I(2)} {
			a := newAdv(c, p, t)
			a.v = c.R.Bits(n)
			a.digits(a.v)
			a.inOrder()
			switch which {
			case "taux":
				a.taux = k
			case "mu":
				a.mu = k
			case "tprime":
				a.tprime = k
			case "tprime and l":
				a.tprime = ModN(k)
				a.fixLR(a.tprime)
				if c.R.Bool() {
					a.commitLR()
				}
			case "l":
				a.l = vconst(k, n)
				a.tprime = dot(a.l, a.r)
				a.commitLR()
			case "r":
				a.r = vconst(k, n)
				a.tprime = dot(a.l, a.r)
				a.commitLR()
			case "Commit":
				a.Commit = gmul(k)
			}
			q := a.assemble(a.ip())
			forged(c, n, fmt.Sprintf("%s = %s", which, k), q)
			forged(c, n, fmt.Sprintf("%s = %s, rest of the argument", which, k), func() *proof {
				switch which {
				case "l":
					q.InnerProductProof.A = k
				case "r":
					q.InnerProductProof.B = k
				default:
					for i := range q.InnerProductProof.Ls {
						q.InnerProductProof.Ls[i], q.InnerProductProof.Rs[i] = inf(), inf()
					}
					q.Taux = fa(q.Taux, I(1))
				}
				return q
			}())
		}
	}
}
