package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

// A slot is a component of a proof.
type slot struct {
	name  string
	point func(p *proof) **p256.P256
	num   func(p *proof) **big.Int
}

func slots(p *proof) []slot {
	out := []slot{
		{"V", func(p *proof) **p256.P256 { return &p.V }, nil},
		{"A", func(p *proof) **p256.P256 { return &p.A }, nil},
		{"S", func(p *proof) **p256.P256 { return &p.S }, nil},
		{"T1", func(p *proof) **p256.P256 { return &p.T1 }, nil},
		{"T2", func(p *proof) **p256.P256 { return &p.T2 }, nil},
		{"Commit", func(p *proof) **p256.P256 { return &p.Commit }, nil},
		{"Taux", nil, func(p *proof) **big.Int { return &p.Taux }},
		{"Mu", nil, func(p *proof) **big.Int { return &p.Mu }},
		{"Tprime", nil, func(p *proof) **big.Int { return &p.Tprime }},
		{"ip.A", nil, func(p *proof) **big.Int { return &p.InnerProductProof.A }},
		{"ip.B", nil, func(p *proof) **big.Int { return &p.InnerProductProof.B }},
	}
	for i := range p.InnerProductProof.Ls {
		i := i
		out = append(out, slot{fmt.Sprintf("L%d", i), func(p *proof) **p256.P256 { return &p.InnerProductProof.Ls[i] }, nil})
	}
	for i := range p.InnerProductProof.Rs {
		i := i
		out = append(out, slot{fmt.Sprintf("R%d", i), func(p *proof) **p256.P256 { return &p.InnerProductProof.Rs[i] }, nil})
	}
	return out
}

var betaP = ref.BetaP

// pointChanges lists other group elements related to a.
func pointChanges(c *C, a *p256.P256, p *proof) map[string]*p256.P256 {
	m := map[string]*p256.P256{
		"inverse": neg(a), "plus g": add(a, gmul(I(1))), "minus g": add(a, gmul(I(-1))), "plus h": add(a, p.Params.H),
		"infinity": inf(), "double": mul(a, I(2)), "random": pt(c), "g": gmul(I(1)), "h": cp(p.Params.H),
		"plus Gg[0]": add(a, p.Params.Gg[0]),
	}
	if PStr(a) != "inf" {
		x := new(big.Int).Mul(a.X, betaP)
		m["same y"] = &p256.P256{X: x.Mod(x, ref.SecP), Y: new(big.Int).Set(a.Y)}
		// not a group element at all
		m["off curve"] = &p256.P256{X: new(big.Int).Set(a.X), Y: new(big.Int).Xor(a.Y, I(1))}
		m["zero y"] = &p256.P256{X: new(big.Int).Set(a.X), Y: I(0)}
	}
	return m
}

func numChanges(c *C, a *big.Int) map[string]*big.Int {
	flip := c.R.Intn(256)
	return map[string]*big.Int{
		"+1": new(big.Int).Add(a, I(1)), "-1": new(big.Int).Sub(a, I(1)), "negated": new(big.Int).Neg(a), "zero": I(0), "one": I(1),
		"doubled": new(big.Int).Lsh(a, 1), "random": c.R.Below(ref.SecN), "halved": new(big.Int).Rsh(a, 1),
		"bit flipped":      new(big.Int).SetBit(a, flip, a.Bit(flip)^1),
		"low word cleared": new(big.Int).Lsh(new(big.Int).Rsh(a, 64), 64),
		"high byte lost":   new(big.Int).Mod(a, Pow2(248)),
		"mod 2^128":        new(big.Int).Mod(a, Pow2(128)),
		"curve prime":      new(big.Int).Add(a, ref.SecP),
		"order + 1":        new(big.Int).Add(new(big.Int).Add(a, ref.SecN), I(1)),
	}
}

// inPlace verifies altered contents in the place of a proof that verified there before.
func inPlace[T any](c *C, place, altered *T, do func() zk.Outcome) zk.Outcome {
	saved := *place
	*place = *altered
	o := do()
	*place = saved
	if c.R.Intn(20) == 0 && !do().Accepted() {
		c.Count("a proof is rejected after an altered one in its place")
	}
	c.Count("altered in place")
	return o
}

type reject func(label string, q *proof)

func samePoint(a, b *p256.P256) bool { return PStr(a) == PStr(b) }
func sameNum(a, b *big.Int) bool     { return ModN(a).Cmp(ModN(b)) == 0 }

// tampers calls f with altered copies of pr; other proofs are sources for transplants.
// pick decides which of the alterations are made.
func tampers(c *C, pr *proof, others map[string]*proof, pick func() bool, f reject) {
	sl := slots(pr)
	for _, s := range sl {
		if s.point != nil {
			orig := *s.point(pr)
			ch := pointChanges(c, orig, pr)
			for _, o := range sl {
				if o.point != nil && o.name != s.name {
					ch["copy of "+o.name] = *o.point(pr)
				}
			}
			for name, o := range others {
				if len(o.InnerProductProof.Ls) != len(pr.InnerProductProof.Ls) || len(o.InnerProductProof.Rs) != len(pr.InnerProductProof.Rs) {
					if s.name[0] == 'L' || s.name[0] == 'R' {
						continue
					}
				}
				ch["from "+name] = *s.point(o)
			}
			for _, k := range sortedKeys(ch) {
				if !samePoint(ch[k], orig) && pick() {
					q := Clone(pr)
					*s.point(q) = cp(ch[k])
					f(s.name+": "+k, q)
				}
			}
			if pick() {
				q := Clone(pr)
				*s.point(q) = nil
				f(s.name+": nil", q)
			}
		} else {
			orig := *s.num(pr)
			ch := numChanges(c, orig)
			for _, o := range sl {
				if o.num != nil && o.name != s.name {
					ch["copy of "+o.name] = *o.num(pr)
				}
			}
			for name, o := range others {
				ch["from "+name] = *s.num(o)
			}
			for _, k := range sortedKeys(ch) {
				if !sameNum(ch[k], orig) && pick() {
					q := Clone(pr)
					*s.num(q) = new(big.Int).Set(ch[k])
					f(s.name+": "+k, q)
				}
			}
			if pick() {
				q := Clone(pr)
				*s.num(q) = nil
				f(s.name+": nil", q)
			}
		}
	}
	// exchanges
	for i, s := range sl {
		for _, o := range sl[i+1:] {
			q := Clone(pr)
			if s.point != nil && o.point != nil && !samePoint(*s.point(q), *o.point(q)) && pick() {
				*s.point(q), *o.point(q) = *o.point(q), *s.point(q)
				f("exchanged "+s.name+" and "+o.name, q)
			}
			if s.num != nil && o.num != nil && !sameNum(*s.num(q), *o.num(q)) && pick() {
				*s.num(q), *o.num(q) = *o.num(q), *s.num(q)
				// a*b is all that counts of these two for a single element, but not of their bases
				f("exchanged "+s.name+" and "+o.name, q)
			}
		}
	}
	// structure of the argument
	ip := func(name string, g func(q *proof)) {
		if pick() {
			q := Clone(pr)
			g(q)
			f(name, q)
		}
	}
	if k := len(pr.InnerProductProof.Ls); k > 0 {
		ip("last L and R dropped", func(q *proof) {
			q.InnerProductProof.Ls, q.InnerProductProof.Rs = q.InnerProductProof.Ls[:k-1], q.InnerProductProof.Rs[:k-1]
		})
		ip("first L and R dropped", func(q *proof) {
			q.InnerProductProof.Ls, q.InnerProductProof.Rs = q.InnerProductProof.Ls[1:], q.InnerProductProof.Rs[1:]
		})
		ip("last L dropped", func(q *proof) { q.InnerProductProof.Ls = q.InnerProductProof.Ls[:k-1] })
		ip("last R dropped", func(q *proof) { q.InnerProductProof.Rs = q.InnerProductProof.Rs[:k-1] })
		ip("L and R emptied", func(q *proof) { q.InnerProductProof.Ls, q.InnerProductProof.Rs = nil, nil })
		ip("all L and R exchanged", func(q *proof) {
			q.InnerProductProof.Ls, q.InnerProductProof.Rs = q.InnerProductProof.Rs, q.InnerProductProof.Ls
		})
	}
	ip("round added", func(q *proof) {
		q.InnerProductProof.Ls = append(q.InnerProductProof.Ls, inf())
		q.InnerProductProof.Rs = append(q.InnerProductProof.Rs, inf())
	})
	ip("R added", func(q *proof) { q.InnerProductProof.Rs = append(q.InnerProductProof.Rs, pt(c)) })
	for _, n := range []int64{1, 2, 4, 8, 16, 32, 0, 3, -1, 64} {
		if n == pr.Params.N {
			continue
		}
		n := n
		ip(fmt.Sprintf("N=%d", n), func(q *proof) { q.Params.N = n })
		ip(fmt.Sprintf("all N=%d", n), func(q *proof) {
			q.Params.N = n
			q.InnerProductProof.N = n
			q.InnerProductProof.Params.N = n
		})
		// the parameters of another range throughout
		ip(fmt.Sprintf("parameters of 2^%d", n), func(q *proof) {
			if n >= 1 && n <= 32 && n&(n-1) == 0 {
				if p, ok := setup(c, int(n)); ok {
					q.Params = p
				}
			} else {
				q.Params.N = n
			}
		})
	}
	for name, o := range others {
		o := o
		ip("argument of "+name, func(q *proof) { q.InnerProductProof = Clone(o).InnerProductProof })
		ip("argument, commitment and tprime of "+name, func(q *proof) {
			d := Clone(o)
			q.InnerProductProof, q.Commit, q.Tprime = d.InnerProductProof, d.Commit, d.Tprime
		})
		ip("everything but V of "+name, func(q *proof) {
			v := q.V
			*q = *Clone(o)
			q.V = v
		})
		ip("everything but A and S of "+name, func(q *proof) {
			a, s := q.A, q.S
			*q = *Clone(o)
			q.A, q.S = a, s
		})
		ip("everything but T1, T2 of "+name, func(q *proof) {
			a, s := q.T1, q.T2
			*q = *Clone(o)
			q.T1, q.T2 = a, s
		})
		ip("everything but the argument of "+name, func(q *proof) {
			a := q.InnerProductProof
			*q = *Clone(o)
			q.InnerProductProof = a
		})
	}
	// changes that cancel in one of the equations
	d := c.R.Below(ref.SecN)
	ip("Commit and Mu shifted by h^d", func(q *proof) {
		q.Commit = add(q.Commit, mul(q.Params.H, d))
		q.Mu = ModN(new(big.Int).Sub(q.Mu, d))
	})
	ip("a and b scaled inversely", func(q *proof) {
		k := c.R.Below(ref.SecN)
		q.InnerProductProof.A = ModN(new(big.Int).Mul(q.InnerProductProof.A, k))
		q.InnerProductProof.B = ModN(new(big.Int).Mul(q.InnerProductProof.B, new(big.Int).ModInverse(k, ref.SecN)))
	})
	ip("a and b negated", func(q *proof) {
		q.InnerProductProof.A = ModN(new(big.Int).Neg(q.InnerProductProof.A))
		q.InnerProductProof.B = ModN(new(big.Int).Neg(q.InnerProductProof.B))
	})
	ip("T1 and Taux shifted", func(q *proof) { q.T1 = add(q.T1, q.Params.H); q.Taux = new(big.Int).Add(q.Taux, I(1)) })
	ip("V and Taux shifted", func(q *proof) { q.V = add(q.V, q.Params.H); q.Taux = new(big.Int).Add(q.Taux, I(1)) })
	ip("V and Tprime shifted", func(q *proof) { q.V = add(q.V, gmul(I(1))); q.Tprime = new(big.Int).Add(q.Tprime, I(1)) })
	ip("A and Mu shifted", func(q *proof) { q.A = add(q.A, q.Params.H); q.Mu = new(big.Int).Add(q.Mu, I(1)) })
	ip("S and Mu shifted", func(q *proof) { q.S = add(q.S, q.Params.H); q.Mu = new(big.Int).Add(q.Mu, I(1)) })
	ip("Commit, Mu, A and B negated", func(q *proof) {
		q.Commit = neg(q.Commit)
		q.Mu = ModN(new(big.Int).Neg(q.Mu))
		q.InnerProductProof.A = ModN(new(big.Int).Neg(q.InnerProductProof.A))
		q.InnerProductProof.B = ModN(new(big.Int).Neg(q.InnerProductProof.B))
	})
	ip("V, A, S, T1, T2, Commit inverted", func(q *proof) {
		for _, s := range slots(q) {
			if s.point != nil {
				*s.point(q) = neg(*s.point(q))
			}
		}
	})
	ip("everything inverted", func(q *proof) {
		for _, s := range slots(q) {
			if s.point != nil {
				*s.point(q) = neg(*s.point(q))
			} else {
				*s.num(q) = ModN(new(big.Int).Neg(*s.num(q)))
			}
		}
	})
	ip("everything zero", func(q *proof) {
		for _, s := range slots(q) {
			if s.point != nil {
				*s.point(q) = inf()
			} else {
				*s.num(q) = I(0)
			}
		}
	})
}

func sortedKeys[T any](m map[string]T) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sortStrings(k)
	return k
}

func always() bool { return true }

var p06 = Prop{
	ID:   "P06",
	Rule: "valid proofs of every N in which each component is replaced by related and unrelated elements, dropped, exchanged with each other component, taken from other valid proofs (same secret, other secret, other range), and multi-component changes that cancel in a single equation; also in each half of generic proofs. Oracle: Verify does not return true. Distinct: (N, component, kind of change, outcome).",
	Min:  500,
	Suites: []Suite{
		{"bulletproof", 64, 600, func(c *C) {
			n := []int{1, 2, 4, 8, 2, 4, 1, 8}[c.Idx%8]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			x := c.R.Bits(n)
			pr := prove(c, x, p)
			if pr == nil || !verify(pr).Accepted() {
				c.Count("no valid proof to alter")
				return
			}
			others := map[string]*proof{}
			if o := prove(c, x, p); o != nil {
				others["a proof of the same secret"] = o
			}
			if o := prove(c, new(big.Int).Xor(x, I(1)), p); o != nil {
				others["a proof of another secret"] = o
			}
			n2 := n * 2
			if p2, ok := setup(c, n2); ok {
				if o := prove(c, x, p2); o != nil {
					others["a proof for another range"] = o
				}
			}
			share := 1
			switch n {
			case 4:
				share = 4
			case 8:
				share = 12
			case 2:
				share = 2
			}
			off := c.Idx / 8
			k := 0
			pick := func() bool { k++; return (k+off)%share == 0 }
			tampers(c, pr, others, pick, func(label string, q *proof) { rejected(c, n, label, q, others, pr) })
		}},
		{"large", 24, 300, func(c *C) {
			n := []int{16, 32}[c.Idx%2]
			pr := honest(c, n)
			if pr == nil || !verify(pr).Accepted() {
				c.Count("no valid proof to alter")
				return
			}
			tampers(c, pr, nil, func() bool { return c.R.Intn(16) == 0 }, func(label string, q *proof) { rejected(c, n, label, q, nil, pr) })
		}},
		{"generic", 16, 200, func(c *C) {
			a, b := bounds(c.R, c.Idx%9)
			g, err := zk.SetupGeneric(a, b)
			if err != nil {
				c.Fail("SetupGeneric(%d,%d): %v", a, b, err)
				return
			}
			pr, err := g.Prove(bi(a))
			if err != nil || !verifyG(pr).Accepted() {
				c.Count("no valid proof to alter")
				return
			}
			for half, h := range []*proof{&pr.P1, &pr.P2} {
				tampers(c, h, nil, func() bool { return c.R.Intn(60) == 0 }, func(label string, q *proof) {
					w := *Clone(&pr)
					if half == 0 {
						w.P1 = *q
					} else {
						w.P2 = *q
					}
					var o zk.Outcome
					if c.R.Bool() {
						o = inPlace(c, &pr, &w, func() zk.Outcome { return verifyPG(&pr) })
					} else {
						o = verifyG(w)
					}
					c.Eval("generic", half, label, o.Kind())
					c.Count("altered proofs judged")
					if o.Accepted() {
						c.Fail("proof for [%d,%d) with altered half %d (%s) verifies", a, b, half+1, label)
					}
				})
			}
		}},
	},
}

// rejected judges one altered proof.
func rejected(c *C, n int, label string, q *proof, others map[string]*proof, orig *proof) {
	// an alteration may yield one of the valid proofs
	d := essence(q)
	if d == essence(orig) {
		return
	}
	for _, o := range others {
		if d == essence(o) {
			return
		}
	}
	var o zk.Outcome
	if c.R.Bool() {
		o = inPlace(c, orig, q, func() zk.Outcome { return verify(orig) })
	} else {
		o = verify(q)
	}
	c.Eval("altered", n, label, o.Kind())
	c.Count("altered proofs judged")
	c.Count("outcome " + o.Kind())
	if o.Accepted() {
		c.Fail("altered proof (N=%d, %s) verifies", n, label)
	}
}

// essence is what of a proof matters: its group elements, residues and range.
func essence(p *proof) string {
	s := fmt.Sprint(p.Params.N)
	for _, sl := range slots(p) {
		if sl.point != nil {
			s += "|" + PStr(*sl.point(p))
		} else if v := *sl.num(p); v == nil {
			s += "|nil"
		} else {
			s += "|" + ModN(v).Text(16)
		}
	}
	return s
}
