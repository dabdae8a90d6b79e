package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/ref"
)

// texts is the bijection between elements and their texts, as observed.
type texts struct {
	c    *C
	of   map[string]string // element -> text
	from map[string]string // text -> element
}

func (t *texts) see(group, id, text, how string) {
	t.c.Eval(group, how, id == "0")
	t.c.Count("texts compared")
	id = group + " " + id
	if was, ok := t.of[id]; ok && was != text {
		t.c.Fail("%s has the text %q, and as %s the text %q", id, was, how, text)
	}
	if was, ok := t.from[text]; ok && was != id {
		t.c.Fail("%s and %s (as %s) both have the text %q", was, id, how, text)
	}
	t.of[id], t.from[text] = text, id
}

func secText(c *C, k *big.Int, rep int) *p256.P256 {
	r := new(p256.P256)
	switch rep {
	case 0:
		return r.ScalarBaseMult(k)
	case 1:
		return r.ScalarMult(new(p256.P256).ScalarBaseMult(I(1)), k)
	case 2:
		s := c.R.Below(ref.SecN)
		return r.Multiply(new(p256.P256).ScalarBaseMult(new(big.Int).Sub(k, s)), new(p256.P256).ScalarBaseMult(s))
	case 3:
		return r.Neg(new(p256.P256).ScalarBaseMult(new(big.Int).Neg(k)))
	}
	m := ref.Secp.Mul(ref.SecG, new(big.Int).Mod(k, ref.SecN))
	if m.Inf {
		return []*p256.P256{r.SetInfinity(), r, {X: I(0), Y: I(0)}}[c.R.Intn(3)]
	}
	return &p256.P256{X: new(big.Int).Set(m.X), Y: new(big.Int).Set(m.Y)}
}

// relatives are discrete logarithms of elements that have something in common with base^k.
func relatives(c *C, k, n *big.Int) []*big.Int {
	l := []*big.Int{k, new(big.Int).Neg(k), new(big.Int).Add(k, I(1)), new(big.Int).Lsh(k, 1), I(0), I(1), I(-1), new(big.Int).Add(k, n)}
	return append(l, c.R.Below(n))
}

func stable(c *C, what string, s fmt.Stringer, enc func() string) string {
	before := enc()
	a := s.String()
	if b := s.String(); a != b {
		c.Fail("%s: the text changes from %q to %q", what, a, b)
	}
	if enc() != before {
		c.Fail("%s: taking the text changed the element", what)
	}
	if b := fmt.Sprint(s); a != b {
		c.Fail("%s: printed as %q, text %q", what, b, a)
	}
	return a
}

var p43 = Prop{
	ID:   "P43",
	Rule: "texts (String) of elements of secp256k1, G1, G2 and GT in up to five representations each, of related elements (k, -k, k+1, 2k, k+order, 0), kept in a table that has to stay a bijection between elements and texts; digests of single elements (HashSet) likewise. Distinct: group, representation, identity or not.",
	Min:  30,
	Suites: []Suite{
		{"curves", 48, 600, func(c *C) {
			t := &texts{c, map[string]string{}, map[string]string{}}
			k := expo(c)
			for _, g := range groups {
				for _, j := range relatives(c, k, ref.BnN) {
					id := new(big.Int).Mod(j, ref.BnN).String()
					for r := 0; r < nReps; r++ {
						if g.name() == "G2" && r > 1 && c.R.Bool() {
							continue
						}
						x := element(c, g, j, r)
						t.see(g.name(), id, stable(c, g.name(), x.(fmt.Stringer), func() string { return g.enc(x) }), fmt.Sprint("rep ", r))
					}
					x := element(c, g, j, c.R.Intn(nReps))
					t.see(g.name(), id, g.add(g.new(), x, g.infinity()).(fmt.Stringer).String(), "sum with the identity")
					x = g.add(g.new(), x, g.neg(g.new(), x))
					t.see(g.name(), "0", stable(c, g.name(), x.(fmt.Stringer), func() string { return g.enc(x) }), "difference")
				}
				t.see(g.name(), "0", g.infinity().(fmt.Stringer).String(), "SetInfinity")
				if x, ok := g.dec(make([]byte, len(g.enc(g.infinity()))/2)); ok {
					t.see(g.name(), "0", x.(fmt.Stringer).String(), "decoded from zeros")
				}
			}
			c.Sample("texts %d", len(t.from))
		}},
		{"secp256k1", 64, 800, func(c *C) {
			t := &texts{c, map[string]string{}, map[string]string{}}
			for n := 0; n < 4; n++ {
				k := c.R.Below(ref.SecN)
				if n == 0 {
					k = I(int64(c.R.Intn(20)))
				}
				for _, j := range relatives(c, k, ref.SecN) {
					for r := 0; r < 5; r++ {
						x := secText(c, j, r)
						s := stable(c, "secp256k1", x, func() string { return fmt.Sprint(x.X, " ", x.Y) })
						t.see("secp256k1", new(big.Int).Mod(j, ref.SecN).String(), s, fmt.Sprint("rep ", r))
					}
				}
				// coordinates that are short
				if p, ok := ref.Secp.Lift(c.R.Bits(8 * (1 + c.R.Intn(31)))); ok {
					for _, q := range []ref.Pt{p, ref.Secp.Neg(p)} {
						x := &p256.P256{X: q.X, Y: q.Y}
						t.see("secp256k1", q.String(), x.String(), "short")
						t.see("secp256k1", q.String(), new(p256.P256).Multiply(x, new(p256.P256).SetInfinity()).String(), "short")
					}
				}
			}
			c.Sample("texts %d", len(t.from))
		}},
		{"GT", 40, 400, func(c *C) {
			t := &texts{c, map[string]string{}, map[string]string{}}
			k := expo(c)
			for _, j := range relatives(c, k, ref.BnN) {
				id := new(big.Int).Mod(j, ref.BnN).String()
				for r := 0; r < 4; r++ {
					var x *bn256.GT
					switch r {
					case 0:
						x = gtEl(c, j)
					case 1:
						y := gtEl(c, j)
						z, ok := new(bn256.GT).Unmarshal(y.Marshal())
						if !ok {
							c.Fail("GT: cannot decode e^%s", j)
							continue
						}
						x = z
					case 2:
						s := c.R.Below(ref.BnN)
						x = new(bn256.GT).Add(gtEl(c, new(big.Int).Sub(j, s)), gtEl(c, s))
					case 3:
						x = new(bn256.GT).Invert(gtEl(c, new(big.Int).Neg(j)))
					}
					t.see("GT", id, stable(c, "GT", x, func() string { return gtHex(x) }), fmt.Sprint("rep ", r))
					// challenges are taken from the texts
					g2 := new(bn256.G2).ScalarBaseMult(I(1))
					if h, e := util.HashSet(x, g2); e == nil {
						t.see("digest of GT", id, "digest "+h.String(), "HashSet")
					}
					if h, e := util.HashSet(util.E, element(c, groups[1], j, c.R.Intn(nReps)).(*bn256.G2)); e == nil && id != "1" {
						t.see("digest of G2", id, "digest "+h.String(), "HashSet")
					}
				}
			}
			c.Sample("texts %d", len(t.from))
		}},
	},
}
