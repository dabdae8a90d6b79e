package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/zk"
)

// This file verifies proofs by the equations of the paper, and makes proofs by them, with
// code of its own for everything but group operations and the hash HashBP.

// ipRules says how the challenges of the inner-product argument are derived.
type ipRules struct {
	mask int // parts of the challenge for the base u
	idx  []int
	out  int
}

// learnIP reads the rules off an honest argument for vectors of length 2.
func learnIP(c *C) (ru ipRules, ok bool) {
	a, b, _ := vectors(c, 2, 0)
	cl := dot(a, b)
	prm, ok := ipSetup(c, 2, cl)
	if !ok {
		return ru, false
	}
	P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, a, b)
	pr, why := ipProve(c, a, b, P, prm)
	if pr == nil || len(pr.Ls) != 1 || len(pr.Rs) != 1 {
		c.Fail("no argument for vectors of length 2: %s", why)
		return ru, false
	}
	ru.mask = -1
	for m := 15; m >= 0; m-- {
		if samePoint(mul(prm.Uu, claimHash(prm, P, cl, m)), pr.U) {
			ru.mask = m
			break
		}
	}
	if ru.mask < 0 {
		c.Fail("the base of the inner-product argument is not u^x for a hash x of the generators, the commitment and the claim")
		return ru, false
	}
	uu := mul(prm.Uu, claimHash(prm, P, cl, ru.mask))
	ps := []*p256.P256{add(P, mul(uu, cl)), pr.Ls[0], pr.Rs[0]}
	// the largest set of elements that explains the challenge
	ok = false
	for _, s := range subsets(3, true) {
		for o := 0; o < 2 && len(s) > 0; o++ {
			x := ipChallenge(ps, s, o)
			if x.Sign() != 0 && fa(fm(a[0], x), fm(a[1], finv(x))).Cmp(ModN(pr.A)) == 0 && len(s) > len(ru.idx) {
				ru.idx, ru.out, ok = s, o, true
			}
		}
	}
	if !ok {
		c.Fail("the answer a' of an argument of length 2 is not a_0 x + a_1/x for a challenge x = HashBP of P', L, R")
	}
	return ru, ok
}

// checkIP judges an argument that <a,b> = claim for the commitment P = g^a h^b.
func checkIP(pr *ipProof, uu *p256.P256, gg, hh []*p256.P256, P *p256.P256, claim *big.Int, ru ipRules) string {
	n := len(gg)
	if len(hh) != n || len(pr.Ls) != len(pr.Rs) || n != 1<<uint(len(pr.Ls)) {
		return "the number of rounds is not log2 of the length"
	}
	prm := ipParams{Gg: gg, Hh: hh}
	u := mul(uu, claimHash(prm, P, claim, ru.mask))
	if !samePoint(u, pr.U) {
		return "U is not u^x for the challenge x of the statement"
	}
	Q := add(P, mul(u, claim))
	for i := range pr.Ls {
		n /= 2
		x := ipChallenge([]*p256.P256{Q, pr.Ls[i], pr.Rs[i]}, ru.idx, ru.out)
		if x.Sign() == 0 {
			return "challenge zero"
		}
		xi := finv(x)
		var g2, h2 []*p256.P256
		for j := 0; j < n; j++ {
			g2 = append(g2, add(mul(gg[j], xi), mul(gg[n+j], x)))
			h2 = append(h2, add(mul(hh[j], x), mul(hh[n+j], xi)))
		}
		gg, hh = g2, h2
		Q = add(add(mul(pr.Ls[i], fm(x, x)), Q), mul(pr.Rs[i], fm(xi, xi)))
	}
	if !samePoint(Q, add(add(mul(gg[0], pr.A), mul(hh[0], pr.B)), mul(u, fm(pr.A, pr.B)))) {
		return "P' is not g^a h^b u^(ab) after the last round"
	}
	return ""
}

// makeIP makes an argument.
func makeIP(prm ipParams, l, r []*big.Int, P *p256.P256, claim *big.Int, ru ipRules) ipProof {
	gg, hh := prm.Gg, prm.Hh
	n := len(l)
	out := ipProof{N: int64(n)}
	out.U = mul(prm.Uu, claimHash(prm, P, claim, ru.mask))
	Q := add(P, mul(out.U, claim))
	out.Params = prm
	out.Params.P = Q
	out.Params.Cc = claim
	for n > 1 {
		n /= 2
		cl, cr := dot(l[:n], r[n:]), dot(l[n:], r[:n])
		L := add(add(multiexp(gg[n:], l[:n]), multiexp(hh[:n], r[n:])), mul(out.U, cl))
		R := add(add(multiexp(gg[:n], l[n:]), multiexp(hh[n:], r[:n])), mul(out.U, cr))
		x := ipChallenge([]*p256.P256{Q, L, R}, ru.idx, ru.out)
		xi := finv(x)
		var g2, h2 []*p256.P256
		var l2, r2 []*big.Int
		for j := 0; j < n; j++ {
			g2 = append(g2, add(mul(gg[j], xi), mul(gg[n+j], x)))
			h2 = append(h2, add(mul(hh[j], x), mul(hh[n+j], xi)))
			l2 = append(l2, fa(fm(l[j], x), fm(l[n+j], xi)))
			r2 = append(r2, fa(fm(r[j], xi), fm(r[n+j], x)))
		}
		gg, hh, l, r = g2, h2, l2, r2
		Q = add(add(mul(L, fm(x, x)), Q), mul(R, fm(xi, xi)))
		out.Ls, out.Rs = append(out.Ls, L), append(out.Rs, R)
	}
	out.A, out.B, out.P, out.Gg, out.Hh = l[0], r[0], Q, gg[0], hh[0]
	return out
}

// rules are those of the range proof and of its argument.
type rules struct {
	t  transcript
	ip ipRules
	uu *p256.P256
}

// learn finds out how challenges are derived, from an honest proof. No proof that
// satisfies (65) under one of the possible derivations: a violation.
func learn(c *C) (ru rules, ok bool) {
	if ru.ip, ok = learnIP(c); !ok {
		return
	}
	pr := honest(c, 2)
	if pr == nil {
		return ru, false
	}
	if ru.t, ok = discover(pr, false); !ok {
		ru.t, ok = discover(pr, true)
	}
	if !ok {
		c.Fail("an honest proof for [0,4) does not satisfy g^t' h^taux = V^(z^2) g^delta(y,z) T1^x T2^(x^2) for any challenges x, y, z that are hashes of its elements")
	}
	prm, ok2 := ipSetup(c, 2, I(1))
	ru.uu = prm.Uu
	return ru, ok && ok2
}

// checkBP judges a range proof by the equations.
func checkBP(pr *proof, ru rules) string {
	n := int(pr.Params.N)
	ps := []*p256.P256{pr.V, pr.A, pr.S, pr.T1, pr.T2}
	y, z := ru.t.challengeYZ(ps)
	x := ru.t.challengeX(ps)
	lhs := add(gmul(pr.Tprime), mul(pr.Params.H, pr.Taux))
	rhs := add(add(mul(pr.V, fm(z, z)), gmul(deltaYZ(y, z, n))), add(mul(pr.T1, x), mul(pr.T2, fm(x, x))))
	if !samePoint(lhs, rhs) {
		return "(65): g^t' h^taux is not V^(z^2) g^delta T1^x T2^(x^2)"
	}
	a := &adv{n: n, p: pr.Params, y: y, z: z, x: x, A: pr.A, S: pr.S, mu: pr.Mu}
	a.generators()
	if !samePoint(a.commit67(), pr.Commit) {
		return "(66), (67): A S^x g^-z h'^(z y^n + z^2 2^n) is not h^mu times the commitment to l and r"
	}
	ip := pr.InnerProductProof
	if why := checkIP(&ip, ru.uu, pr.Params.Gg, a.hp, pr.Commit, pr.Tprime, ru.ip); why != "" {
		return "inner-product argument: " + why
	}
	return ""
}

// agree compares the verdict of the code with that of the equations. A proof that the
// equations reject must not be accepted; if must is set, also the converse.
func agree(c *C, what string, pr *proof, ru rules, must bool) {
	why := checkBP(pr, ru)
	o := verify(pr)
	c.Eval(what, pr.Params.N, why, o.Kind())
	c.Count("verdicts compared")
	if why != "" && o.Accepted() {
		c.Fail("%s (N=%d): accepted, but %s", what, pr.Params.N, why)
	}
	if must && why != "" {
		c.Fail("%s (N=%d): %s", what, pr.Params.N, why)
	}
	if must && !o.Accepted() {
		c.Fail("%s (N=%d): satisfies every equation, but verification says %s", what, pr.Params.N, o)
	}
}

// ownProof makes a proof for v without the code under test.
func ownProof(c *C, p params, ru rules, v, gamma *big.Int, mode int) *proof {
	a := newAdv(c, p, ru.t)
	a.v = v
	if gamma != nil {
		a.gamma = gamma
	}
	a.digits(a.v)
	switch mode % 11 { // degenerate, but valid, choices of a prover
	case 1:
		a.alpha = I(0)
	case 2:
		a.rho = I(0)
	case 3:
		a.tau1, a.tau2 = I(0), I(0)
	case 4:
		a.gamma = I(0)
	case 5:
		a.sL, a.sR = vconst(I(0), a.n), vconst(I(0), a.n)
	case 6:
		a.sR = vconst(I(0), a.n)
	case 7:
		a.alpha, a.rho, a.tau1, a.tau2 = fneg(I(1)), I(1), I(1), fneg(I(1))
	case 8: // S, T1 and T2 are the identity
		a.rho, a.tau1, a.tau2 = I(0), I(0), I(0)
		a.sL, a.sR = vconst(I(0), a.n), vconst(I(0), a.n)
	case 9: // V is the identity
		if gamma == nil {
			a.v, a.gamma = I(0), I(0)
			a.digits(a.v)
		}
	case 10: // equal commitments
		a.rho, a.tau2 = a.alpha, a.tau1
		a.sL, a.sR = a.aL, a.aR
	}
	if gamma != nil {
		a.gamma = gamma
	}
	a.inOrder()
	prm := ipParams{N: int64(a.n), Uu: ru.uu, H: p.H, Gg: p.Gg, Hh: a.hp}
	return a.assemble(makeIP(prm, a.l, a.r, a.Commit, a.tprime, ru.ip))
}

// alter changes one component of a proof; what it changes is not fixed.
func alter(c *C, q *proof, other *proof) string {
	sl := slots(q)
	s := sl[c.R.Intn(len(sl))]
	if s.point != nil {
		ch := pointChanges(c, *s.point(q), other)
		delete(ch, "off curve") // for those the equations mean nothing
		delete(ch, "zero y")
		k := sortedKeys(ch)[c.R.Intn(len(ch))]
		*s.point(q) = cp(ch[k])
		return s.name + ": " + k
	}
	ch := numChanges(c, *s.num(q))
	k := sortedKeys(ch)[c.R.Intn(len(ch))]
	*s.num(q) = ch[k]
	return s.name + ": " + k
}

var p40 = Prop{
	ID:   "P40",
	Rule: "proofs by the code (every size, structured secrets, uniform, hostile and constant randomness; both halves of generic proofs; arguments of length 1 to 64) are judged by a verifier of the harness that follows the equations of the paper; proofs that a prover of the harness makes (all sizes, degenerate random choices, both halves of generic proofs, arguments) are judged by the code; altered proofs by both. Challenges: derived as an honest proof of length 2 shows. Oracle: the two verdicts agree. Distinct: (kind, size, broken equation, outcome).",
	Min:  120,
	Suites: []Suite{
		{"their proofs", 36, 400, func(c *C) {
			ru, ok := learn(c)
			if !ok {
				return
			}
			n := sizes[c.Idx%6]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			x := secretsFor(c.R, n, c.Idx/6)
			mode := randMode(c, c.Idx/6+c.Idx)
			pr := prove(c, x, p)
			c.Install(0, order)
			if pr == nil {
				return
			}
			agree(c, "honest proof, "+mode[:7], pr, ru, true)
			c.Sample("N=%d x=%s randomness %s: every equation holds", n, x, mode)
		}},
		{"our proofs", 66, 660, func(c *C) {
			ru, ok := learn(c)
			if !ok {
				return
			}
			n := sizes[c.Idx%6]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			v := secretsFor(c.R, n, c.R.Intn(12))
			mode := c.Idx / 6
			pr := ownProof(c, p, ru, v, nil, mode)
			agree(c, fmt.Sprint("the harness's proof, choices ", mode%11), pr, ru, true)
		}},
		{"altered proofs", 36, 500, func(c *C) {
			ru, ok := learn(c)
			if !ok {
				return
			}
			n := sizes[c.Idx%4]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			pr := ownProof(c, p, ru, c.R.Bits(n), nil, 0)
			other := ownProof(c, p, ru, c.R.Bits(n), nil, 0)
			for t := 0; t < 12; t++ {
				q := Clone(pr)
				what := alter(c, q, Clone(other))
				agree(c, "altered "+what, q, ru, false)
			}
		}},
		{"generic", 12, 140, func(c *C) {
			ru, ok := learn(c)
			if !ok {
				return
			}
			a, b := intervalFor(c, c.Idx)
			x := new(big.Int).Add(bi(a), c.R.Below(bi(b-a)))
			if c.Idx%3 == 1 {
				x = []*big.Int{bi(a), bi(b - 1)}[c.R.Intn(2)]
			}
			g, err := zk.SetupGeneric(a, b)
			if err != nil {
				c.Fail("SetupGeneric(%d,%d): %v", a, b, err)
				return
			}
			pr, err := g.Prove(new(big.Int).Set(x))
			if err != nil {
				c.Fail("ProveGeneric(%s): %v", x, err)
				return
			}
			for i, h := range []*proof{&pr.P1, &pr.P2} {
				if why := checkBP(h, ru); why != "" {
					c.Fail("half %d of a generic proof for [%d,%d): %s", i+1, a, b, why)
				}
				c.Eval("half", i)
			}
			p, ok := setup(c, 32)
			if !ok {
				return
			}
			gamma := c.R.Below(order)
			q := generic{A: a, B: b,
				P1: *ownProof(c, p, ru, new(big.Int).Add(new(big.Int).Sub(x, bi(b)), Pow2(32)), gamma, 0),
				P2: *ownProof(c, p, ru, new(big.Int).Sub(x, bi(a)), gamma, c.Idx)}
			o := verifyG(q)
			c.Eval("own halves", b-a, o.Kind())
			c.Count("verdicts compared")
			if !o.Accepted() {
				c.Fail("[%d,%d): two valid halves with one blinding factor, but verification says %s", a, b, o)
			}
		}},
		{"arguments", 56, 700, func(c *C) {
			ru, ok := learnIP(c)
			if !ok {
				return
			}
			n := 1 << (c.Idx % 7)
			a, b, kind := vectors(c, n, c.Idx/7)
			cl := dot(a, b)
			prm, ok := ipSetup(c, n, cl)
			if !ok {
				return
			}
			P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, a, b)
			if !samePoint(P, add(multiexp(prm.Gg, a), multiexp(prm.Hh, b))) {
				c.Fail("commitInnerProduct for %s vectors of length %d is not g^a h^b", kind, n)
				return
			}
			pr, why := ipProve(c, a, b, P, prm)
			if pr == nil {
				c.Fail("proveInnerProduct (n=%d, %s): %s", n, kind, why)
				return
			}
			why = checkIP(pr, prm.Uu, prm.Gg, prm.Hh, P, cl, ru)
			c.Eval("their argument", n, kind, why)
			if why != "" {
				c.Fail("argument of length %d (%s vectors): %s", n, kind, why)
			}
			var a2, b2 []*big.Int
			for i := range a {
				a2, b2 = append(a2, ModN(a[i])), append(b2, ModN(b[i]))
			}
			q := makeIP(prm, a2, b2, P, cl, ru)
			o := ipVerify(Clone(&q))
			c.Eval("our argument", n, kind, o.Kind())
			c.Count("verdicts compared")
			if !o.Accepted() {
				c.Fail("argument of length %d (%s vectors) of the harness satisfies every equation, but verification says %s", n, kind, o)
			}
			for t := 0; t < 4; t++ {
				w := Clone(&q)
				name := "A"
				switch c.R.Intn(5) {
				case 0:
					w.A = fa(w.A, c.R.Scalar(order))
				case 1:
					w.B = fa(w.B, c.R.Scalar(order))
					name = "B"
				case 2:
					w.Params.P = add(w.Params.P, gmul(c.R.Scalar(order)))
					name = "P"
				default:
					if len(w.Ls) == 0 {
						continue
					}
					i := c.R.Intn(len(w.Ls))
					name = fmt.Sprint("L, R ", i)
					d := gmul(c.R.Below(order))
					switch c.R.Intn(3) {
					case 0:
						w.Ls[i] = add(w.Ls[i], d)
					case 1:
						w.Rs[i] = add(w.Rs[i], d)
					default:
						w.Ls[i], w.Rs[i] = w.Rs[i], w.Ls[i]
					}
				}
				// P is what is left of Params.P
				P2 := add(w.Params.P, neg(mul(w.U, cl)))
				why := checkIP(w, prm.Uu, prm.Gg, prm.Hh, P2, cl, ru)
				o := ipVerify(w)
				c.Eval("altered argument", n, name, why, o.Kind())
				c.Count("verdicts compared")
				if (why == "") != o.Accepted() {
					c.Fail("altered argument (%s) of length %d: the equations say %q, verification says %s", name, n, why, o)
				}
			}
		}},
	},
}
