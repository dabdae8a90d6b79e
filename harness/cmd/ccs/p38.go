package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/zk"
)

// published is what a set of parameters consists of, as far as it can be recognized.
type published struct {
	what  string
	pk    *bn256.G1
	H     *bn256.G2
	elems []Leaf // the elements of G2 in collections
	keyed bool   // they are filed under the message
	sk    *big.Int
}

func enc2(p *bn256.G2) string { return fmt.Sprintf("%x", p.Marshal()) }

// lookAt reads parameters made with the given draws; the signing key is the draw that
// belongs to the public key.
func lookAt(c *C, what string, params any, draws []*big.Int) (*published, bool) {
	p := &published{what: what}
	var ok bool
	if p.pk, ok = Get[*bn256.G1](params, "kp.Pubk"); !ok || p.pk == nil {
		c.Count("public key not recognized")
		return nil, false
	}
	p.H, _ = Get[*bn256.G2](params, "H")
	for _, l := range Leaves(params) {
		if g, ok := l.V.Interface().(*bn256.G2); ok && g != nil && strings.Contains(l.Path, "[") {
			p.elems = append(p.elems, l)
		}
	}
	if f, ok := Field(params, "signatures"); ok && f.Kind() == reflect.Map {
		p.keyed = true
	}
	pk := fmt.Sprintf("%x", p.pk.Marshal())
	for _, d := range draws {
		if fmt.Sprintf("%x", new(bn256.G1).ScalarBaseMult(modN(d)).Marshal()) == pk {
			p.sk = modN(d)
		}
	}
	if p.sk == nil {
		c.Count("signing key not among the draws")
	}
	return p, true
}

// signs decides whether s is the signature for m: with the key, and by the equation
// e(g1^m pk, s) = e(g1, g2).
func (p *published) signs(s *bn256.G2, m *big.Int, pairing bool) bool {
	if p.sk != nil {
		k := fa(m, p.sk)
		if k.Sign() == 0 {
			return false
		}
		if enc2(s) != enc2(g2(finv(k))) {
			return false
		}
		if !pairing {
			return true
		}
	}
	q := new(bn256.G1).Add(new(bn256.G1).ScalarBaseMult(modN(m)), p.pk)
	return fmt.Sprintf("%x", bn256.Pair(q, s).Marshal()) == fmt.Sprintf("%x", util.E.Marshal())
}

// authorizes checks that the published signatures are for exactly the messages in want,
// of those in want and in near.
func (p *published) authorizes(c *C, want, near []*big.Int, pairings int) {
	byMsg := map[string]string{} // residue -> paths
	tried := map[string]*big.Int{}
	isWant := map[string]bool{}
	for _, m := range want {
		tried[modN(m).String()] = m
		isWant[modN(m).String()] = true
	}
	for _, m := range near {
		if _, ok := tried[modN(m).String()]; !ok {
			tried[modN(m).String()] = m
		}
	}
	got := map[string]string{}
	for _, l := range p.elems {
		got[enc2(l.V.Interface().(*bn256.G2))] += l.Path + " "
	}
	if p.sk != nil {
		var ks []string
		for k := range tried {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m := tried[k]
			e := fa(m, p.sk)
			if e.Sign() == 0 {
				if isWant[k] {
					c.Fail("%s are made with a key for which %s has no signature", p.what, m)
				}
				continue
			}
			path, ok := got[enc2(g2(finv(e)))]
			c.Count("messages decided")
			if ok {
				byMsg[k] = path
			}
			if ok && !isWant[k] {
				c.Fail("%s authorize %s, which was not asked for (%s)", p.what, m, path)
			}
			if !ok && isWant[k] {
				c.Fail("%s have no signature for %s", p.what, m)
			}
			delete(got, enc2(g2(finv(e))))
		}
		for _, path := range got {
			c.Fail("%s: %sis a signature for none of the messages", p.what, path)
		}
	}
	// the equation itself, for some of them, under the message they are filed under
	for i, l := range p.elems {
		if !p.keyed || (pairings > 0 && i%((len(p.elems)+pairings-1)/pairings) != 0) {
			continue
		}
		key := l.Path[strings.LastIndex(l.Path, "[")+1:]
		m, ok := new(big.Int).SetString(strings.TrimSuffix(key, "]"), 10)
		if !ok {
			c.Count("signature without a message")
			continue
		}
		c.Count("pairing equations checked")
		if !p.signs(l.V.Interface().(*bn256.G2), m, true) {
			c.Fail("%s: %s is not a signature for %s", p.what, l.Path, m)
		}
	}
}

// base checks that the base H of commitments is usable.
func (p *published) base(c *C) {
	if p.H == nil {
		c.Count("no base of commitments recognized")
		return
	}
	c.Count("bases checked")
	if p.H.IsZero() || enc2(p.H) == enc2(new(bn256.G2).SetInfinity()) {
		c.Fail("%s: H is the identity", p.what)
		return
	}
	x, ok := new(bn256.G2).Unmarshal(p.H.Marshal())
	if !ok || x == nil {
		c.Fail("%s: H is not an element of G2", p.what)
	}
	if k := knownLog(p.H); k != nil {
		c.Fail("%s: H is g^%s", p.what, k)
	}
	for _, l := range p.elems {
		if enc2(l.V.Interface().(*bn256.G2)) == enc2(p.H) {
			c.Fail("%s: H is the signature %s", p.what, l.Path)
		}
	}
	if p.sk != nil && (enc2(p.H) == enc2(g2(p.sk)) || enc2(p.H) == enc2(g2(finv(p.sk)))) {
		c.Fail("%s: H is a power of the generator by the signing key", p.what)
	}
	if p.pk.IsZero() {
		c.Fail("%s: the public key is the identity", p.what)
	}
}

func bigs(s []int64) (out []*big.Int) {
	for _, x := range s {
		out = append(out, I(x))
	}
	return
}

// around lists messages next to the ones asked for, and what they turn into when they are
// truncated, negated or read otherwise.
func around(c *C, s []int64) (out []*big.Int) {
	for _, x := range s {
		for _, d := range []int64{-2, -1, 1, 2} {
			out = append(out, new(big.Int).Add(I(x), I(d)))
		}
		out = append(out, new(big.Int).Neg(I(x)), I(int64(int32(x))), I(int64(uint32(x))), I(int64(int16(x))), I(int64(uint8(x))),
			new(big.Int).SetUint64(uint64(x)), I(x>>1), new(big.Int).Lsh(I(x), 1), I(int64(float32(x))))
	}
	for k := int64(-3); k <= 3; k++ {
		out = append(out, I(k), I(int64(len(s))+k))
	}
	return
}

func setupSetCase(c *C) {
	var set []int64
	n := c.R.Intn(9)
	for i := 0; i < n; i++ {
		set = append(set, hostileInt64(c.R))
	}
	switch c.R.Intn(5) {
	case 0: // consecutive
		b := hostileInt64(c.R)
		for i := range set {
			set[i] = b + int64(i)
		}
	case 1: // repeated elements
		for i := range set {
			if i > 0 && c.R.Bool() {
				set[i] = set[i-1]
			}
		}
	case 2: // opposite elements
		for i := range set {
			if i > 0 && i%2 == 1 {
				set[i] = -set[i-1]
			}
		}
	}
	var prev *published
	for t := 0; t < 2; t++ {
		rec := c.InstallSeeded(fmt.Sprint("setup", t))
		s, err := zk.SetupSet(append([]int64(nil), set...))
		if err != nil {
			c.Fail("SetupSet(%v): %v", set, err)
			return
		}
		p, ok := lookAt(c, fmt.Sprintf("the parameters of SetupSet(%v)", set), s.P, rec.Scalars(order))
		if !ok {
			return
		}
		pairings := 0
		if t == 0 {
			pairings = 3
		}
		if t == 0 || len(set) > 0 {
			p.authorizes(c, bigs(set), around(c, set), max(pairings, 1))
		}
		p.base(c)
		p.fresh(c, prev)
		prev = p
		c.Eval("set", len(set), t, p.sk != nil)
	}
}

// fresh compares parameters made with different random numbers.
func (p *published) fresh(c *C, q *published) {
	if q == nil {
		return
	}
	if fmt.Sprintf("%x", p.pk.Marshal()) == fmt.Sprintf("%x", q.pk.Marshal()) {
		c.Fail("%s: two setups made the same key", p.what)
	}
	c.Count("pairs of setups compared")
}

func setupULCase(c *C) {
	u, l := int64(1+c.R.Intn(70)), int64(1+c.R.Intn(12))
	if c.Idx%4 == 0 {
		u, l = []int64{1, 2, 3, 10, 16, 57, 64, 100, 128, 256}[c.R.Intn(10)], 1
	}
	var prev *published
	for t := 0; t < 2; t++ {
		rec := c.InstallSeeded(fmt.Sprint("setup", t))
		s, err := zk.SetupUL(u, l)
		if err != nil {
			c.Fail("SetupUL(%d,%d): %v", u, l, err)
			return
		}
		p, ok := lookAt(c, fmt.Sprintf("the parameters of SetupUL(%d,%d)", u, l), s.P, rec.Scalars(order))
		if !ok {
			return
		}
		var want, near []*big.Int
		for i := int64(0); i < u; i++ {
			want = append(want, I(i))
		}
		for i := int64(1); i <= 12; i++ {
			near = append(near, I(-i), I(u+i-1))
		}
		near = append(near, power(u, l), I(u*u), I(l), I(u*l), I(-u))
		p.authorizes(c, want, near, 2)
		if gu, gl, ok := s.Size(); ok && (gu != u || gl != l) {
			c.Fail("%s say u = %d, l = %d", p.what, gu, gl)
		}
		p.base(c)
		p.fresh(c, prev)
		prev = p
		c.Eval("ul", u, l, t, p.sk != nil)
	}
}

func setupIntervalCase(c *C) {
	a := int64(c.R.Intn(200000)) - 100000
	b := a + 1 + c.R.Bits(1+c.R.Intn(40)).Int64()
	switch c.R.Intn(4) {
	case 0:
		a, b = 0, []int64{56, 57, 58, 57 * 57, 57*57 - 1, 57*57 + 1, 57 * 57 * 57, 1 << 40, 1<<53 + 1, 1<<62 + 1}[c.R.Intn(10)]
	case 1:
		a, b = -b, -a
	}
	iv := zk.NewInterval()
	rec := c.InstallSeeded("setup")
	err, pan := ivSetup(iv, a, b)
	if pan != nil {
		c.Fail("Setup(%d,%d): %v", a, b, pan)
		return
	}
	if err != nil {
		c.Count("refused")
		if iv.Params() != nil {
			c.Fail("Setup(%d,%d) failed but left parameters", a, b)
		}
		return
	}
	ul := iv.UL()
	u, l, ok := ul.Size()
	if !ok {
		c.Count("parameters not recognized")
		return
	}
	what := fmt.Sprintf("the parameters of ccs08.Setup(%d,%d)", a, b)
	p, ok := lookAt(c, what, ul.P, rec.Scalars(order))
	if !ok {
		return
	}
	var want, near []*big.Int
	for i := int64(0); i < u; i++ {
		want = append(want, I(i))
	}
	for i := int64(1); i <= 12; i++ {
		near = append(near, I(-i), I(u+i-1))
	}
	p.authorizes(c, want, append(near, I(a), I(b), I(b-a), power(u, l)), 2)
	p.base(c)
	ga, ok1 := Get[int64](iv.Params(), "a")
	gb, ok2 := Get[int64](iv.Params(), "b")
	if ok1 && ok2 && (ga != a || gb != b) {
		c.Fail("%s are for [%d,%d)", what, ga, gb)
	}
	// both x - a and x - b + u^l must be in [0,u^l) exactly for x in [a,b)
	if power(u, l).Cmp(new(big.Int).Sub(I(b), I(a))) < 0 {
		c.Fail("%s: [0,%d^%d) is smaller than the interval", what, u, l)
	}
	if power(u, l).Cmp(new(big.Int).Rsh(order, 2)) > 0 {
		c.Fail("%s: %d^%d is not small in comparison with the group", what, u, l)
	}
	c.Eval("interval", a < 0, b < 0, l, p.sk != nil)
}

// oddKeyCase has the random source make the one key that cannot sign one of the messages.
func oddKeyCase(c *C) {
	var set []int64
	for i := 1 + c.R.Intn(6); i > 0; i-- {
		set = append(set, hostileInt64(c.R))
	}
	u := int64(2 + c.R.Intn(12))
	m := set[c.R.Intn(len(set))]
	ul := c.Idx%2 == 0
	if ul {
		m = 1 + int64(c.R.Intn(int(u)-1))
	}
	rec := c.InstallSeeded("setup")
	rec.Mode, rec.Const = 2, modN(new(big.Int).Neg(I(m)))
	if c.R.Intn(3) == 0 { // also a key that is just not it
		rec.Const = modN(new(big.Int).Sub(rec.Const, I(1)))
	}
	var params any
	var err error
	var want []*big.Int
	what := fmt.Sprintf("the parameters of SetupSet(%v)", set)
	pan := Call(func() {
		if ul {
			what = fmt.Sprintf("the parameters of SetupUL(%d,2)", u)
			var s *zk.UL
			if s, err = zk.SetupUL(u, 2); err == nil {
				params = s.P
			}
			for i := int64(0); i < u; i++ {
				want = append(want, I(i))
			}
		} else {
			var s *zk.Set
			if s, err = zk.SetupSet(append([]int64(nil), set...)); err == nil {
				params = s.P
			}
			want = bigs(set)
		}
	})
	c.Eval("odd key", ul, err == nil)
	if pan != nil {
		c.Fail("%s with the key %s: %v", what, rec.Const, pan)
		return
	}
	if err != nil {
		c.Count("keys refused")
		return
	}
	if p, ok := lookAt(c, what, params, rec.Scalars(order)); ok {
		p.authorizes(c, want, nil, 1)
	}
}

var p38 = Prop{
	ID:     "P38",
	Level:  "exploration",
	Rule:   "all elements of G2 in public parameters are compared with the signatures of the messages asked for and of their surroundings, computed from the recorded signing key, and put into the pairing equation",
	Assume: []string{"group operations are right (P22, P23)"},
	Min:    40,
	Suites: []Suite{
		{"sets", 60, 800, setupSetCase},
		{"bases and lengths", 48, 500, setupULCase},
		{"intervals", 32, 400, setupIntervalCase},
		{"keys that cannot sign", 32, 300, oddKeyCase},
	},
}
