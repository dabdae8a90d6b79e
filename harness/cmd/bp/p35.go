package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

type ipProof = bulletproofs.InnerProductProof
type ipParams = bulletproofs.InnerProductParams

func ipVerify(p *ipProof) zk.Outcome { return zk.Do(func() (bool, error) { return p.Verify() }) }

func ipSetup(c *C, n int, claim *big.Int) (ipParams, bool) {
	var prm ipParams
	var err error
	e := Call(func() { prm, err = bulletproofs.VerifSetupInnerProduct(nil, nil, nil, claim, int64(n)) })
	if e != nil || err != nil {
		c.Fail("setupInnerProduct(%d): %v %v", n, err, e)
		return prm, false
	}
	return prm, true
}

// vectors chooses entries: random, hostile, small, zero, sparse.
func vectors(c *C, n, k int) (a, b []*big.Int, kind string) {
	kinds := []string{"random", "hostile", "small", "a zero", "b zero", "sparse", "equal", "one"}
	kind = kinds[k%len(kinds)]
	for i := 0; i < n; i++ {
		x, y := c.R.Below(order), c.R.Below(order)
		switch kind {
		case "hostile":
			x, y = c.R.Scalar(order), c.R.Scalar(order)
		case "small":
			x, y = I(int64(c.R.Intn(5)-2)), I(int64(c.R.Intn(5)-2))
		case "a zero":
			x = I(0)
		case "b zero":
			y = I(0)
		case "sparse":
			if i != n/2 {
				x = I(0)
			}
		case "equal":
			x, y = I(7), I(7)
		case "one":
			x, y = I(1), I(1)
		}
		a, b = append(a, x), append(b, y)
	}
	return
}

func ipProve(c *C, a, b []*big.Int, P *p256.P256, prm ipParams) (*ipProof, string) {
	var pr ipProof
	var err error
	if e := Call(func() { pr, err = bulletproofs.VerifProveInnerProduct(a, b, P, prm) }); e != nil {
		return nil, fmt.Sprint(e)
	}
	if err != nil {
		return nil, "error: " + err.Error()
	}
	return &pr, ""
}

var p35 = Prop{
	ID:   "P35",
	Rule: "vectors of length 1 to 1024 (random, negative, oversized, zero, sparse), true claims and false ones (next to the true one, negated, zero, random; congruent ones are true), commitments to other vectors, every single substitution, and arguments of a dishonest prover adapted to the challenges in use. Oracle: the inner product by math/big. Distinct: (length, kind of vectors, kind of claim or change, outcome).",
	Min:  150,
	Suites: []Suite{
		{"claims", 112, 1500, func(c *C) {
			n := 1 << (c.Idx % 7)
			a, b, kind := vectors(c, n, c.Idx/7)
			ip := dot(a, b)
			claims := map[string]*big.Int{"true": ip, "congruent": new(big.Int).Add(ip, order), "congruent negative": new(big.Int).Sub(ip, order),
				"+1": fa(ip, I(1)), "-1": fa(ip, I(-1)), "negated": fneg(ip), "zero": I(0), "one": I(1), "random": c.R.Below(order), "doubled": fm(ip, I(2))}
			names := sortedKeys(claims)
			for i, name := range names {
				if n >= 16 && name != "true" && c.R.Intn(n/4) != 0 && i%10 != c.Idx%10 {
					continue
				}
				cl := claims[name]
				prm, ok := ipSetup(c, n, cl)
				if !ok {
					return
				}
				want := ModN(cl).Cmp(ip) == 0
				a2, b2 := Clone(&a), Clone(&b)
				P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, *a2, *b2)
				pr, why := ipProve(c, *a2, *b2, P, prm)
				if pr == nil {
					if want {
						c.Fail("proveInnerProduct (n=%d, %s): %s", n, kind, why)
					}
					continue
				}
				if Digest(a2) != Digest(&a) || Digest(b2) != Digest(&b) {
					c.Fail("proveInnerProduct changed its vectors (n=%d)", n)
				}
				o := ipVerify(pr)
				c.Eval("claim", n, kind, name, o.Kind())
				c.Count(fmt.Sprintf("claims %v", want))
				if o.Accepted() != want {
					c.Fail("n=%d %s vectors, claim %s: verification says %s, expected %v", n, kind, name, o, want)
				}
			}
			c.Sample("n=%d %s <a,b>=%s", n, kind, ip)
		}},
		{"long vectors", 10, 60, func(c *C) {
			n := 128 << (c.Idx % 4)
			if c.Tier == "quick" && n > 256 && c.Idx > 3 {
				n = 128
			}
			a, b, kind := vectors(c, n, c.Idx/4)
			ip := dot(a, b)
			for _, cl := range []*big.Int{ip, fa(ip, I(1))} {
				prm, ok := ipSetup(c, n, cl)
				if !ok {
					return
				}
				P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, a, b)
				if !samePoint(P, add(multiexp(prm.Gg, a), multiexp(prm.Hh, b))) {
					c.Fail("commitment to %s vectors of %d elements is not g^a h^b", kind, n)
				}
				want := ModN(cl).Cmp(ip) == 0
				pr, why := ipProve(c, a, b, P, prm)
				if pr == nil {
					if want {
						c.Fail("proveInnerProduct (n=%d, %s): %s", n, kind, why)
					}
					continue
				}
				o := ipVerify(pr)
				c.Eval("long", n, kind, want, o.Kind())
				c.Count("claims about long vectors")
				if o.Accepted() != want {
					c.Fail("n=%d %s vectors, claim %v: verification says %s", n, kind, want, o)
				}
			}
		}},
		{"other commitment", 42, 500, func(c *C) {
			n := 1 << (c.Idx % 5)
			a, b, kind := vectors(c, n, c.Idx/5)
			prm, ok := ipSetup(c, n, dot(a, b))
			if !ok {
				return
			}
			P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, a, b)
			for name, Q := range map[string]*p256.P256{"plus g": add(P, gmul(I(1))), "plus Gg": add(P, prm.Gg[0]), "inverse": neg(P), "infinity": inf(), "random": pt(c), "plus u": add(P, prm.Uu)} {
				if samePoint(P, Q) {
					continue
				}
				pr, _ := ipProve(c, a, b, Q, prm)
				if pr == nil {
					continue
				}
				o := ipVerify(pr)
				c.Eval("commitment", n, kind, name, o.Kind())
				c.Count("false commitments judged")
				if o.Accepted() {
					c.Fail("n=%d: an argument for a commitment to other vectors (%s) verifies", n, name)
				}
			}
			// other lengths
			for _, m := range []int{n - 1, n + 1, 2 * n, 0} {
				var why string
				o := zk.Outcome{}
				short := vrand(c, m)
				pr, why := ipProve(c, a, short, P, prm)
				c.Eval("length", n, m)
				c.Count("unequal lengths judged")
				if pr != nil {
					o = ipVerify(pr)
					c.Fail("proveInnerProduct accepts vectors of length %d and %d (%s; then verification says %s)", n, m, why, o)
				} else if len(why) < 6 || why[:6] != "error:" {
					c.Fail("proveInnerProduct for lengths %d and %d: %s", n, m, why)
				}
			}
		}},
		{"substitutions", 48, 600, func(c *C) {
			n := 1 << (c.Idx % 4)
			a, b, _ := vectors(c, n, 0)
			cl := dot(a, b)
			prm, ok := ipSetup(c, n, cl)
			if !ok {
				return
			}
			P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, a, b)
			pr, _ := ipProve(c, a, b, P, prm)
			if pr == nil || !ipVerify(pr).Accepted() {
				c.Count("no valid argument to alter")
				return
			}
			x, y, _ := vectors(c, n, 0)
			prm2 := prm
			prm2.Cc = dot(x, y)
			other, _ := ipProve(c, x, y, bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, x, y), prm2)
			judge := func(name string, q *ipProof) {
				o := ipVerify(q)
				c.Eval("substitution", n, name, o.Kind())
				c.Count("altered arguments judged")
				if o.Accepted() {
					c.Fail("n=%d: argument with altered %s verifies", n, name)
				}
			}
			points := map[string]func(q *ipProof) **p256.P256{
				"U": func(q *ipProof) **p256.P256 { return &q.U }, "Params.P": func(q *ipProof) **p256.P256 { return &q.Params.P },
			}
			for i := range pr.Ls {
				i := i
				points[fmt.Sprintf("L%d", i)] = func(q *ipProof) **p256.P256 { return &q.Ls[i] }
				points[fmt.Sprintf("R%d", i)] = func(q *ipProof) **p256.P256 { return &q.Rs[i] }
			}
			for _, name := range sortedKeys(points) {
				slot := points[name]
				orig := *slot(pr)
				ch := map[string]*p256.P256{"inverse": neg(orig), "infinity": inf(), "plus g": add(orig, gmul(I(1))), "random": pt(c), "plus u": add(orig, pr.U), "double": mul(orig, I(2))}
				if other != nil {
					ch["of another argument"] = *slot(other)
				}
				for _, k := range sortedKeys(ch) {
					if !samePoint(ch[k], orig) {
						q := Clone(pr)
						*slot(q) = cp(ch[k])
						judge(name+": "+k, q)
					}
				}
			}
			nums := map[string]func(q *ipProof) **big.Int{"A": func(q *ipProof) **big.Int { return &q.A }, "B": func(q *ipProof) **big.Int { return &q.B }, "claim": func(q *ipProof) **big.Int { return &q.Params.Cc }}
			for _, name := range sortedKeys(nums) {
				slot := nums[name]
				orig := *slot(pr)
				ch := numChanges(c, orig)
				if other != nil {
					ch["of another argument"] = *slot(other)
				}
				for _, k := range sortedKeys(ch) {
					if !sameNum(ch[k], orig) {
						q := Clone(pr)
						*slot(q) = ch[k]
						judge(name+": "+k, q)
					}
				}
			}
			q := Clone(pr)
			q.A, q.B = q.B, q.A
			if !sameNum(q.A, q.B) {
				judge("A and B exchanged", q)
			}
			q = Clone(pr)
			q.A, q.B = fneg(q.A), fneg(q.B)
			judge("A and B negated", q)
			if k := len(pr.Ls); k > 0 {
				q = Clone(pr)
				q.Ls, q.Rs = q.Rs, q.Ls
				judge("Ls and Rs exchanged", q)
				q = Clone(pr)
				q.Ls, q.Rs = q.Ls[:k-1], q.Rs[:k-1]
				judge("last round dropped", q)
				q = Clone(pr)
				q.Ls = q.Ls[:k-1]
				judge("last L dropped", q)
				q = Clone(pr)
				q.Rs = q.Rs[:k-1]
				judge("last R dropped", q)
				if k > 1 {
					q = Clone(pr)
					q.Ls[0], q.Ls[1], q.Rs[0], q.Rs[1] = q.Ls[1], q.Ls[0], q.Rs[1], q.Rs[0]
					judge("rounds exchanged", q)
				}
			}
			for i := range pr.Params.Gg {
				q = Clone(pr)
				q.Params.Gg[i] = add(q.Params.Gg[i], gmul(I(1)))
				judge("generator g", q)
				q = Clone(pr)
				q.Params.Hh[i] = add(q.Params.Hh[i], gmul(I(1)))
				judge("generator h", q)
			}
			if other != nil {
				q = Clone(other)
				q.Params = Clone(pr).Params
				judge("statement", q)
				q.U = pr.U
				judge("statement and U", q)
			}
		}},
		{"dishonest prover", 48, 600, func(c *C) {
			dishonestArgument(c)
		}},
	},
}

// ipChallenge is the round challenge from the elements idx of (P,L,R).
func ipChallenge(ps []*p256.P256, idx []int, out int) *big.Int {
	a, b := hbp(ps, idx)
	if out == 1 {
		return ModN(b)
	}
	return ModN(a)
}

// claimHash is the challenge for the base u from parts of the statement.
func claimHash(prm ipParams, P *p256.P256, claim *big.Int, mask int) *big.Int {
	d := sha256.New()
	if mask&1 != 0 {
		d.Write([]byte(P.String()))
	}
	for i := range prm.Gg {
		if mask&2 != 0 {
			d.Write([]byte(prm.Gg[i].String()))
		}
		if mask&4 != 0 {
			d.Write([]byte(prm.Hh[i].String()))
		}
	}
	if mask&8 != 0 {
		d.Write([]byte(claim.String()))
	}
	return ModN(ref.FromTwosComplement(d.Sum(nil)))
}

func dishonestArgument(c *C) {
	// find the challenges in use
	a, b, _ := vectors(c, 2, 0)
	cl := dot(a, b)
	prm, ok := ipSetup(c, 2, cl)
	if !ok {
		return
	}
	P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, a, b)
	pr, _ := ipProve(c, a, b, P, prm)
	if pr == nil || !ipVerify(pr).Accepted() || len(pr.Ls) != 1 {
		c.Count("no valid argument to learn from")
		return
	}
	mask := -1
	for m := 15; m >= 0; m-- {
		if samePoint(mul(prm.Uu, claimHash(prm, P, cl, m)), pr.U) {
			mask = m
			break
		}
	}
	var idx []int
	out := -1
	xc := fm(claimHash(prm, P, cl, max(mask, 0)), cl)
	Pu := add(P, mul(prm.Uu, xc))
	ps := []*p256.P256{Pu, pr.Ls[0], pr.Rs[0]}
	for _, s := range subsets(3, true) {
		for o := 0; o < 2 && len(s) > 0; o++ {
			x := ipChallenge(ps, s, o)
			if x.Sign() != 0 && fa(fm(a[0], x), fm(a[1], finv(x))).Cmp(ModN(pr.A)) == 0 {
				idx, out = s, o
			}
		}
	}
	c.Count(fmt.Sprintf("claim hash parts %d, round hash parts %v", mask, idx))
	judge := func(name string, q *ipProof) {
		o := ipVerify(q)
		c.Eval("dishonest", name, o.Kind())
		c.Count("forged arguments judged")
		if o.Accepted() {
			c.Fail("forged argument verifies: %s (claim hash parts %d, round hash parts %v)", name, mask, idx)
		}
	}
	if mask < 0 || out < 0 {
		c.Count("challenges not recognized")
		return
	}
	build := func(prm ipParams, P *p256.P256, claim *big.Int, u *p256.P256, L, R *p256.P256, A, B *big.Int) *ipProof {
		prm.Cc = claim
		prm.P = add(P, mul(u, claim))
		return Clone(&ipProof{N: 2, Ls: []*p256.P256{L}, Rs: []*p256.P256{R}, U: u, P: prm.P, Gg: prm.Gg[0], Hh: prm.Hh[0], A: A, B: B, Params: prm})
	}
	fold := func(x *big.Int) (g, h *p256.P256) {
		xi := finv(x)
		return add(mul(prm.Gg[0], xi), mul(prm.Gg[1], x)), add(mul(prm.Hh[0], x), mul(prm.Hh[1], xi))
	}
	u := func(P *p256.P256, claim *big.Int) *p256.P256 { return mul(prm.Uu, claimHash(prm, P, claim, mask)) }

	// calibration: our own prover's honest argument is accepted
	honest := func(sign int64, claim *big.Int) *ipProof {
		// sign -1: the internal vectors are the negated ones, as if a check was up to sign
		s := I(sign)
		uu := u(P, claim)
		PP := add(P, mul(uu, claim))
		va, vb := vscale(a, s), vscale(b, s)
		L := add(add(mul(prm.Gg[1], va[0]), mul(prm.Hh[0], vb[1])), mul(uu, fm(va[0], vb[1])))
		R := add(add(mul(prm.Gg[0], va[1]), mul(prm.Hh[1], vb[0])), mul(uu, fm(va[1], vb[0])))
		if sign < 0 {
			L, R = neg(L), neg(R)
		}
		x := ipChallenge([]*p256.P256{PP, L, R}, idx, out)
		xi := finv(x)
		return build(prm, P, claim, uu, L, R, fa(fm(va[0], x), fm(va[1], xi)), fa(fm(vb[0], xi), fm(vb[1], x)))
	}
	if q := honest(1, cl); !ipVerify(q).Accepted() {
		c.Count("the harness's own honest argument is rejected")
		return
	}
	c.Count("own honest arguments accepted")
	c.Eval("calibrated")
	judge("false claim", honest(1, fa(cl, I(1))))
	judge("claim of the inverse commitment", honest(-1, fneg(cl)))

	A, B := c.R.Below(order), c.R.Below(order)
	claim := c.R.Below(order)
	uu := u(P, claim)
	PP := add(P, mul(uu, claim))
	// L last, R last: the round challenge does not bind it
	for k := range 2 {
		other := pt(c)
		ps := []*p256.P256{PP, other, other}
		ps[1+k] = inf()
		x := ipChallenge(ps, idx, out)
		x2 := fm(x, x)
		x2i := finv(x2)
		g, h := fold(x)
		rhs := add(add(mul(g, A), mul(h, B)), mul(uu, fm(A, B)))
		if k == 0 {
			L := mul(add(rhs, neg(add(PP, mul(other, x2i)))), x2i)
			judge("L chosen last", build(prm, P, claim, uu, L, other, A, B))
		} else {
			R := mul(add(rhs, neg(add(PP, mul(other, x2)))), x2)
			judge("R chosen last", build(prm, P, claim, uu, other, R, A, B))
		}
	}
	// P last
	for _, lr := range []*p256.P256{inf(), pt(c)} {
		x := ipChallenge([]*p256.P256{inf(), lr, lr}, idx, out)
		xi := finv(x)
		va, vb := []*big.Int{fm(A, xi), fm(A, x)}, []*big.Int{fm(B, x), fm(B, xi)}
		Pl := add(multiexp(prm.Gg, va), multiexp(prm.Hh, vb))
		// <va,vb> = 2AB, but the argument would be for AB
		judge("commitment chosen after the round challenge", build(prm, Pl, fm(A, B), u(Pl, fm(A, B)), lr, lr, A, B))
	}
	// claim last: P contains a multiple of the base
	d := c.R.Below(order)
	Pd := add(P, mul(prm.Uu, d))
	h := claimHash(prm, Pd, I(0), mask)
	late := fa(cl, fneg(fm(d, finv(h))))
	ud := u(Pd, late)
	hon := func(P *p256.P256, claim *big.Int, uu *p256.P256) *ipProof {
		PP := add(P, mul(uu, claim))
		L := add(add(mul(prm.Gg[1], a[0]), mul(prm.Hh[0], b[1])), mul(uu, fm(a[0], b[1])))
		R := add(add(mul(prm.Gg[0], a[1]), mul(prm.Hh[1], b[0])), mul(uu, fm(a[1], b[0])))
		x := ipChallenge([]*p256.P256{PP, L, R}, idx, out)
		xi := finv(x)
		return build(prm, P, claim, uu, L, R, fa(fm(a[0], x), fm(a[1], xi)), fa(fm(b[0], xi), fm(b[1], x)))
	}
	judge("claim chosen after the challenge for the base", hon(Pd, late, ud))
	// P last: the multiple of the base in P corrects a false claim
	wrong := fa(cl, I(5))
	h = claimHash(prm, inf(), wrong, mask)
	Pc := add(P, mul(prm.Uu, fm(h, I(-5))))
	judge("commitment chosen after the challenge for the base", hon(Pc, wrong, u(Pc, wrong)))
	// own base
	for name, base := range map[string]*p256.P256{"infinity": inf(), "g": gmul(I(1)), "Uu": prm.Uu} {
		judge("base "+name, hon(P, wrong, base))
	}
}
