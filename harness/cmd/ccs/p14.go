package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	bb "github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/zk"
)

// el is the content of a set proof (single is true) or of a UL proof.
type el struct {
	single   bool
	V        []*bn256.G2
	D, C     *bn256.G2
	a        []*bn256.GT
	zsig, zv []*big.Int
	c, zr    *big.Int
}

// read takes a proof apart; ok is false if it does not have the known components.
func read(pr any) (e el, ok bool) {
	get := func(name string, p any) {
		v, found := Field(pr, name)
		t := reflect.ValueOf(p).Elem()
		if !found || v.Type() != t.Type() {
			ok = false
			return
		}
		t.Set(v)
	}
	ok = true
	v, found := Field(pr, "V")
	if !found {
		return e, false
	}
	e.single = v.Kind() != reflect.Slice
	if e.single {
		e.V, e.a, e.zsig, e.zv = make([]*bn256.G2, 1), make([]*bn256.GT, 1), make([]*big.Int, 1), make([]*big.Int, 1)
		get("V", &e.V[0])
		get("a", &e.a[0])
		get("zsig", &e.zsig[0])
		get("zv", &e.zv[0])
	} else {
		get("V", &e.V)
		get("a", &e.a)
		get("zsig", &e.zsig)
		get("zv", &e.zv)
	}
	get("D", &e.D)
	get("C", &e.C)
	get("c", &e.c)
	get("zr", &e.zr)
	return
}

// write makes a proof with these components, in memory of its own.
func (e el) write(template any) any {
	out := CloneAny(template)
	q := Clone(&e)
	if e.single {
		Set(out, "V", q.V[0])
		Set(out, "a", q.a[0])
		Set(out, "zsig", q.zsig[0])
		Set(out, "zv", q.zv[0])
	} else {
		Set(out, "V", q.V)
		Set(out, "a", q.a)
		Set(out, "zsig", q.zsig)
		Set(out, "zv", q.zv)
	}
	Set(out, "D", q.D)
	Set(out, "C", q.C)
	Set(out, "c", q.c)
	Set(out, "zr", q.zr)
	return out
}

func (e el) copy() el { return *Clone(&e) }

// shape says what the challenge is computed from.
type shape struct {
	a, v  int   // 0 all, 1 none, 2 first, 3 last, 4 all but the first, 5 all but the last
	order []int // of D, C, V
}

func pick[T any](l []T, how int) []T {
	switch how {
	case 1:
		return nil
	case 2:
		return l[:1]
	case 3:
		return l[len(l)-1:]
	case 4:
		return l[1:]
	case 5:
		return l[:len(l)-1]
	}
	return l
}

func (s shape) challenge(e el) *big.Int {
	var in []*bn256.G2
	for _, k := range s.order {
		switch k {
		case 0:
			in = append(in, e.D)
		case 1:
			in = append(in, e.C)
		case 2:
			in = append(in, pick(e.V, s.v)...)
		}
	}
	as := pick(e.a, s.a)
	var c *big.Int
	if e.single && len(as) == 1 {
		c, _ = util.HashSet(as[0], in...)
	} else {
		c, _ = util.Hash(as, in...)
	}
	if c == nil {
		return I(0)
	}
	return modN(c)
}

// orders lists the arrangements of subsets of D, C, V.
func orders() (out [][]int) {
	var rec func(cur []int)
	rec = func(cur []int) {
		out = append(out, append([]int(nil), cur...))
		for i := 0; i < 3; i++ {
			used := false
			for _, j := range cur {
				used = used || i == j
			}
			if !used {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
	return
}

// discover finds out how an honest proof's challenge was computed.
func discover(e el) (shape, bool) {
	full := shape{0, 0, []int{0, 1, 2}}
	if full.challenge(e).Cmp(modN(e.c)) == 0 {
		return full, true
	}
	for a := 0; a < 6; a++ {
		for v := 0; v < 6; v++ {
			for _, o := range orders() {
				s := shape{a, v, o}
				if s.challenge(e).Cmp(modN(e.c)) == 0 {
					return s, true
				}
			}
		}
	}
	return full, false
}

// sys is a set or UL system.
type sys struct {
	name   string
	set    *zk.Set
	ul     *zk.UL
	params any
	u      int64
	l      int
	H      *bn256.G2
	pk     *bn256.G1
	sig    func(m int64) *bn256.G2
	msgs   []int64 // signed messages
}

func newSetSys(c *C, s []int64) *sys {
	z := setSystem(c, s)
	if z == nil {
		return nil
	}
	o := &sys{name: "set", set: z, params: z.P, u: 1, l: 1, msgs: s}
	m, ok := Get[map[int64]*bn256.G2](z.P, "signatures")
	o.sig = func(k int64) *bn256.G2 { return Clone(m[k]) }
	return o.keys(c, ok)
}

func newULSys(c *C, u, l int64) *sys {
	z := ulSystem(c, u, l)
	if z == nil {
		return nil
	}
	o := &sys{name: "ul", ul: z, params: z.P, u: u, l: int(l)}
	for i := int64(0); i < u; i++ {
		o.msgs = append(o.msgs, i)
	}
	m, ok := Get[map[string]*bn256.G2](z.P, "signatures")
	o.sig = func(k int64) *bn256.G2 { return Clone(m[fmt.Sprint(k)]) }
	return o.keys(c, ok)
}

func (s *sys) keys(c *C, ok bool) *sys {
	var ok1, ok2 bool
	s.H, ok1 = Get[*bn256.G2](s.params, "H")
	s.pk, ok2 = Get[*bn256.G1](s.params, "kp.Pubk")
	if !ok || !ok1 || !ok2 {
		c.Count("parameters not recognized")
		return nil
	}
	return s
}

func (s *sys) verify(p any) zk.Outcome {
	if s.set != nil {
		return verifySet(s.set, p)
	}
	return verifyUL(s.ul, p)
}

// honest proves a random valid secret.
func (s *sys) honest(c *C) (pr any, x, r *big.Int) {
	r = c.R.Below(order)
	var why string
	if s.set != nil {
		m := s.msgs[c.R.Intn(len(s.msgs))]
		pr, why = proveSet(s.set, m, r)
		x = I(m)
	} else {
		x = c.R.Below(power(s.u, int64(s.l)))
		pr, why = proveUL(s.ul, x, r)
	}
	if pr == nil {
		c.Count("honest prover failed: " + strings.SplitN(why, ":", 2)[0])
	}
	return
}

func (s *sys) weight(i int) *big.Int { return modN(power(s.u, int64(i))) }

// judge reports an accepted proof.
func (s *sys) judge(c *C, what string, p any) {
	o := s.verify(p)
	if o.Accepted() {
		c.Fail("%s: accepted: %s", s.name, what)
	}
	c.Eval(s.name, what, o.Kind())
	c.Count("forged or altered proofs judged")
}

// attack is a prover that knows what the harness gives it, and no signing key.
type attack struct {
	*sys
	c       *C
	sh      shape
	tmpl    any
	x       []*big.Int // claimed digits
	with    []int64    // messages whose signatures are used
	r, m    *big.Int
	s, t, v []*big.Int
	e       el
}

// prepare makes commitments for the claimed digits x with the signatures for the
// messages in with.
func (s *sys) prepare(c *C, tmpl any, sh shape, x []*big.Int, with []int64) *attack {
	a := &attack{sys: s, c: c, sh: sh, tmpl: tmpl, x: x, with: with, r: c.R.Below(order), m: c.R.Below(order)}
	a.e.single = s.set != nil
	a.e.D = g2mul(s.H, a.m)
	a.e.C = g2mul(s.H, a.r)
	for i := 0; i < s.l; i++ {
		a.s, a.t, a.v = append(a.s, c.R.Below(order)), append(a.t, c.R.Below(order)), append(a.v, c.R.Below(order))
		V := g2mul(s.sig(with[i]), a.v[i])
		a.e.V = append(a.e.V, V)
		a.e.a = append(a.e.a, gtadd(gtmul(bn256.Pair(gen1, V), fneg(a.s[i])), gtmul(gtE, a.t[i])))
		a.e.D = g2add(a.e.D, g2(fm(a.s[i], s.weight(i))))
		a.e.C = g2add(a.e.C, g2(fm(a.x[i], s.weight(i))))
	}
	return a
}

func (a *attack) challenge() *big.Int { return a.sh.challenge(a.e) }

// respond answers the challenge for the claimed digits.
func (a *attack) respond(ch *big.Int) {
	a.e.c = ch
	a.e.zr = fa(a.m, fneg(fm(a.r, ch)))
	a.e.zsig, a.e.zv = nil, nil
	for i := 0; i < a.l; i++ {
		a.e.zsig = append(a.e.zsig, fa(a.s[i], fneg(fm(a.x[i], ch))))
		a.e.zv = append(a.e.zv, fa(a.t[i], fneg(fm(a.v[i], ch))))
	}
}

// lateD and lateA are the values that satisfy the equations.
func (a *attack) lateD() *bn256.G2 {
	D := g2add(g2mul(a.e.C, a.e.c), g2mul(a.H, a.e.zr))
	for i := range a.e.zsig {
		D = g2add(D, g2(fm(a.e.zsig[i], a.weight(i))))
	}
	return D
}
func (a *attack) lateA(i int) *bn256.GT {
	V := a.e.V[i]
	p := gtmul(bn256.Pair(a.pk, V), a.e.c)
	p = gtadd(p, gtmul(bn256.Pair(gen1, V), fneg(a.e.zsig[i])))
	return gtadd(p, gtmul(gtE, a.e.zv[i]))
}

func (a *attack) submit(what string) { a.judge(a.c, what, a.e.write(a.tmpl)) }

// finish sets the challenge to what the verifier computes for the final transcript: if a
// component chosen late is not part of it, this is the challenge that was answered.
func (a *attack) finish(what string) {
	a.e.c = a.challenge()
	a.submit(what)
}

func rnd2(c *C) *bn256.G2 { return g2(c.R.Below(order)) }
func rndT(c *C) *bn256.GT { return gtmul(gtE, c.R.Below(order)) }

// forgeries runs the strategies of dishonest provers against one system.
func forgeries(c *C, s *sys, part int) {
	tmpl, _, _ := s.honest(c)
	if tmpl == nil {
		return
	}
	h, ok := read(tmpl)
	if !ok {
		c.Count("proof not recognized")
		return
	}
	sh, found := discover(h)
	if !found {
		c.Count("challenge not recognized")
	}
	c.Eval("challenge", s.name, fmt.Sprint(sh))
	digits := func() (x []*big.Int, with []int64) {
		for i := 0; i < s.l; i++ {
			m := s.msgs[c.R.Intn(len(s.msgs))]
			x, with = append(x, I(m)), append(with, m)
		}
		return
	}
	// a false claim about digit j: not a signed message
	outside := func() (x []*big.Int, with []int64, j int) {
		x, with = digits()
		j = c.R.Intn(s.l)
		top := s.msgs[0]
		for _, m := range s.msgs {
			if m > top {
				top = m
			}
		}
		switch c.R.Intn(3) {
		case 0:
			x[j] = new(big.Int).Add(I(top), I(int64(1+c.R.Intn(50))))
		case 1:
			x[j] = c.R.Below(order)
		default:
			x[j] = fneg(new(big.Int).Add(I(int64(c.R.Intn(1000))), I(1)))
			for _, m := range s.msgs {
				if modN(I(m)).Cmp(x[j]) == 0 {
					x[j] = c.R.Below(order)
				}
			}
		}
		return
	}
	// calibration: our own honest prover is accepted
	x, with := digits()
	a := s.prepare(c, tmpl, sh, x, with)
	a.respond(a.challenge())
	if o := s.verify(a.e.write(tmpl)); !o.Accepted() {
		c.Count("the harness's own honest proof is rejected")
	} else {
		c.Count("own honest proofs accepted")
		c.Eval("calibrated", s.name)
	}

	// one equation of one digit fails
	x, with, j := outside()
	a = s.prepare(c, tmpl, sh, x, with)
	a.respond(a.challenge())
	a.submit("a digit that is not the signed message")
	for i := 0; i < s.l; i++ {
		x, with := digits()
		a = s.prepare(c, tmpl, sh, x, with)
		a.e.V[i] = rnd2(c)
		a.respond(a.challenge())
		a.submit(fmt.Sprint("random V in digit ", i, " before the challenge"))
		x, with = digits()
		x[i] = fa(x[i], I(int64(len(s.msgs))+1000))
		a = s.prepare(c, tmpl, sh, x, with)
		a.respond(a.challenge())
		a.submit(fmt.Sprint("false digit ", i))
		a.respond(a.challenge())
		a.e.zv[i] = c.R.Below(order)
		a.submit(fmt.Sprint("false digit, other zv ", i))
	}
	// the commitment is to another value
	x, with = digits()
	a = s.prepare(c, tmpl, sh, x, with)
	a.e.C = g2add(a.e.C, g2(I(1)))
	a.respond(a.challenge())
	a.submit("commitment to x+1")
	a.e.C = g2add(g2mul(s.H, a.r), g2(c.R.Below(order)))
	a.respond(a.challenge())
	a.submit("commitment to a random value")
	// signs
	x, with = digits()
	a = s.prepare(c, tmpl, sh, x, with)
	a.e.D = g2neg(a.e.D)
	a.respond(a.challenge())
	a.submit("D up to sign")
	x, with = digits()
	a = s.prepare(c, tmpl, sh, x, with)
	k := c.R.Intn(s.l)
	a.e.a[k] = gtmul(a.e.a[k], I(-1))
	a.respond(a.challenge())
	a.submit("a up to sign")
	x, with = digits()
	a = s.prepare(c, tmpl, sh, x, with)
	a.e.a[k] = rndT(c)
	a.respond(a.challenge())
	a.submit("random a before the challenge")
	a = s.prepare(c, tmpl, sh, x, with)
	a.e.D = rnd2(c)
	a.respond(a.challenge())
	a.submit("random D before the challenge")

	// a signature by another key
	x, with = digits()
	a = s.prepare(c, tmpl, sh, x, with)
	own := c.R.Below(order)
	for i := range x {
		x[i] = c.R.Below(order)
		sig, err := bb.Sign(new(big.Int).Set(x[i]), own)
		if err != nil {
			return
		}
		a.e.V[i] = g2mul(sig, a.v[i])
		a.e.a[i] = gtadd(gtmul(bn256.Pair(gen1, a.e.V[i]), fneg(a.s[i])), gtmul(gtE, a.t[i]))
	}
	a.x = x
	a.e.C = g2mul(s.H, a.r)
	for i := range x {
		a.e.C = g2add(a.e.C, g2(fm(x[i], s.weight(i))))
	}
	a.respond(a.challenge())
	a.submit("signatures by another key")

	// identity as signature: a = E^t, zv = t
	for _, all := range []bool{true, false} {
		x, with, j = outside()
		a = s.prepare(c, tmpl, sh, x, with)
		for i := range x {
			if all || i == j {
				a.e.V[i] = g2(I(0))
				a.e.a[i] = gtmul(gtE, a.t[i])
				a.v[i] = I(0)
			}
		}
		a.respond(a.challenge())
		a.submit(fmt.Sprint("identity as signature, all digits: ", all))
	}

	// arbitrary challenges: simulated transcripts
	simulate := func(ch *big.Int) *attack {
		x, with, _ := outside()
		a := s.prepare(c, tmpl, sh, x, with)
		a.e.c = ch
		a.e.zr = c.R.Below(order)
		a.e.zsig, a.e.zv = nil, nil
		for i := 0; i < s.l; i++ {
			a.e.zsig = append(a.e.zsig, c.R.Below(order))
			a.e.zv = append(a.e.zv, c.R.Below(order))
			if c.R.Bool() {
				a.e.V[i] = rnd2(c)
			}
		}
		a.e.D = a.lateD()
		for i := range a.e.a {
			a.e.a[i] = a.lateA(i)
		}
		return a
	}
	for _, ch := range []*big.Int{I(0), I(1), I(-1), new(big.Int).Set(order), c.R.Below(order), h.c} {
		a = simulate(ch)
		a.submit("simulated transcript")
	}
	a = simulate(c.R.Below(order))
	a.finish("simulated transcript with the right challenge")
	// c = 0: nothing about C is proved
	x, with, _ = outside()
	a = s.prepare(c, tmpl, sh, x, with)
	a.respond(I(0))
	a.submit("challenge zero")

	// components chosen after the challenge
	// D last
	x, with = digits()
	a = s.prepare(c, tmpl, sh, x, with)
	a.e.C = rnd2(c)
	a.e.D = g2(I(0))
	a.respond(a.challenge())
	a.e.D = a.lateD()
	a.finish("D chosen last")
	// C last
	x, with = digits()
	a = s.prepare(c, tmpl, sh, x, with)
	a.e.D = g2add(g2(c.R.Below(order)), g2mul(s.H, c.R.Below(order)))
	a.e.C = g2(I(0))
	a.respond(a.challenge())
	a.e.zr = c.R.Below(order)
	rest := a.e.D
	rest = g2add(rest, g2neg(g2mul(s.H, a.e.zr)))
	for i := range a.e.zsig {
		rest = g2add(rest, g2neg(g2(fm(a.e.zsig[i], s.weight(i)))))
	}
	if inv := finv(a.e.c); inv != nil {
		a.e.C = g2mul(rest, inv)
		a.finish("C chosen last")
	}
	// both
	x, with = digits()
	a = s.prepare(c, tmpl, sh, x, with)
	a.e.C, a.e.D = g2(I(0)), g2(I(0))
	a.respond(a.challenge())
	a.e.C = rnd2(c)
	a.e.D = a.lateD()
	a.finish("C and D chosen last")
	for i := 0; i < s.l; i++ {
		// a_i last
		x, with, _ = outside()
		x[i] = c.R.Below(order)
		for k := range x {
			if k != i {
				x[k] = I(with[k])
			}
		}
		a = s.prepare(c, tmpl, sh, x, with)
		a.e.V[i] = rnd2(c)
		a.e.a[i] = gtmul(gtE, I(0))
		a.respond(a.challenge())
		a.e.zv[i] = c.R.Below(order)
		a.e.a[i] = a.lateA(i)
		a.finish(fmt.Sprint("a chosen last in digit ", i))
		// V_i last
		a = s.prepare(c, tmpl, sh, x, with)
		alpha, beta := c.R.Below(order), c.R.Below(order)
		sig := s.sig(with[i])
		a.e.a[i] = gtadd(gtmul(gtE, alpha), gtmul(bn256.Pair(gen1, sig), beta))
		a.e.V[i] = g2(I(0))
		a.respond(a.challenge())
		if inv := finv(fa(fm(I(with[i]), a.e.c), a.e.zsig[i])); inv != nil {
			v := fm(fneg(beta), inv)
			a.e.V[i] = g2mul(sig, v)
			a.e.zv[i] = fa(alpha, fneg(fm(v, a.e.c)))
			a.finish(fmt.Sprint("V chosen last in digit ", i))
		}
		// both
		a = s.prepare(c, tmpl, sh, x, with)
		a.e.a[i], a.e.V[i] = gtmul(gtE, I(0)), g2(I(0))
		a.respond(a.challenge())
		a.e.V[i] = rnd2(c)
		a.e.a[i] = a.lateA(i)
		a.finish(fmt.Sprint("V and a chosen last in digit ", i))
	}
	degenerate(c, s, tmpl, sh, digits)
	if s.l > 1 {
		// compensation between digits: the sum is right, each digit is not
		x, with = digits()
		x[0] = fa(x[0], s.weight(1))
		x[1] = fa(x[1], I(-1))
		a = s.prepare(c, tmpl, sh, x, with)
		a.respond(a.challenge())
		a.submit("digits that compensate each other")
		// product of the equations holds, each one does not
		x, with = digits()
		a = s.prepare(c, tmpl, sh, x, with)
		d := rndT(c)
		a.e.a[0], a.e.a[1] = gtadd(a.e.a[0], d), gtadd(a.e.a[1], gtmul(d, I(-1)))
		a.respond(a.challenge())
		a.submit("equations that compensate each other")
		x, with = digits()
		a = s.prepare(c, tmpl, sh, x, with)
		a.respond(a.challenge())
		d2 := c.R.Below(order)
		a.e.zv[0], a.e.zv[1] = fa(a.e.zv[0], d2), fa(a.e.zv[1], fneg(d2))
		a.submit("zv that compensate each other")
	}
}

// tampering replaces components of an honest proof.
func tampering(c *C, s *sys) {
	pr, _, _ := s.honest(c)
	p2, _, _ := s.honest(c)
	if pr == nil || p2 == nil {
		return
	}
	if o := s.verify(CloneAny(pr)); !o.Accepted() {
		c.Count("calibration: honest proof not accepted")
		return
	}
	base := Leaves(pr)
	other := map[string]any{}
	for _, l := range Leaves(p2) {
		other[l.Path] = l.V.Interface()
	}
	modified := func(path string, f func(v any) bool, what string) {
		q := CloneAny(pr)
		for _, l := range Leaves(q) {
			if l.Path != path {
				continue
			}
			before := modLeaf(l)
			if !f(l.V.Interface()) || modLeaf(l) == before {
				return
			}
			s.judge(c, what+" in "+path, q)
		}
	}
	for _, l := range base {
		l := l
		switch l.V.Interface().(type) {
		case *big.Int:
			o, _ := other[l.Path].(*big.Int)
			ds := map[string]*big.Int{"+1": I(1), "-1": I(-1), "+2^128": Pow2(128), "+random": c.R.Below(order), "top bit": Pow2(253)}
			for _, name := range Keys(ds) {
				d := ds[name]
				if name != "+random" && c.R.Intn(3) > 0 {
					continue
				}
				modified(l.Path, func(v any) bool { v.(*big.Int).Add(v.(*big.Int), d); return true }, name)
			}
			modified(l.Path, func(v any) bool { v.(*big.Int).Neg(v.(*big.Int)); return true }, "negated")
			modified(l.Path, func(v any) bool { v.(*big.Int).SetInt64(0); return true }, "zero")
			if o != nil {
				modified(l.Path, func(v any) bool { v.(*big.Int).Set(o); return true }, "of another proof")
			}
		case *bn256.G2:
			o, _ := other[l.Path].(*bn256.G2)
			set := func(w *bn256.G2) func(v any) bool {
				return func(v any) bool { *v.(*bn256.G2) = *Clone(w); return true }
			}
			cur := l.V.Interface().(*bn256.G2)
			modified(l.Path, set(g2(I(0))), "identity")
			modified(l.Path, set(g2neg(Clone(cur))), "negated")
			modified(l.Path, set(g2add(Clone(cur), g2(I(1)))), "shifted")
			modified(l.Path, set(rnd2(c)), "random")
			modified(l.Path, set(g2mul(Clone(cur), I(2))), "doubled")
			if o != nil {
				modified(l.Path, set(o), "of another proof")
			}
		case *bn256.GT:
			o, _ := other[l.Path].(*bn256.GT)
			set := func(w *bn256.GT) func(v any) bool {
				return func(v any) bool { *v.(*bn256.GT) = *Clone(w); return true }
			}
			cur := l.V.Interface().(*bn256.GT)
			modified(l.Path, set(gtmul(gtE, I(0))), "one")
			modified(l.Path, set(gtmul(Clone(cur), I(-1))), "inverted")
			modified(l.Path, set(gtadd(Clone(cur), gtE)), "shifted")
			if o != nil {
				modified(l.Path, set(o), "of another proof")
			}
		}
	}
	e, ok := read(pr)
	f, ok2 := read(p2)
	if !ok || !ok2 {
		c.Count("proof not recognized")
		return
	}
	// groups of components of another proof
	q := e.copy()
	q.C, q.D, q.zr = f.C, f.D, f.zr
	s.judge(c, "C, D and zr of another proof", q.write(pr))
	q = e.copy()
	q.V, q.a, q.zv = f.V, f.a, f.zv
	s.judge(c, "V, a and zv of another proof", q.write(pr))
	q = e.copy()
	q.C, q.c = f.C, f.c
	s.judge(c, "C and c of another proof", q.write(pr))
	q = e.copy()
	q.C, q.D = q.D, q.C
	s.judge(c, "C and D exchanged", q.write(pr))
	q = e.copy()
	q.V = f.V
	q.c = f.c
	s.judge(c, "V and c of another proof", q.write(pr))
	// the commitment is moved together with D
	for _, d := range []*big.Int{I(1), c.R.Below(order)} {
		q = e.copy()
		q.C = g2add(q.C, g2(d))
		q.D = g2add(q.D, g2(fm(d, q.c)))
		s.judge(c, "C and D shifted", q.write(pr))
		q = e.copy()
		q.C = g2add(q.C, g2(d))
		q.zsig[0] = fa(q.zsig[0], fneg(fm(d, q.c)))
		s.judge(c, "C and zsig shifted", q.write(pr))
		q = e.copy()
		q.C = g2add(q.C, g2mul(s.H, d))
		q.zr = fa(q.zr, fneg(fm(d, q.c)))
		s.judge(c, "C and zr shifted", q.write(pr))
		q = e.copy()
		q.D = g2add(q.D, g2mul(s.H, d))
		q.zr = fa(q.zr, d)
		s.judge(c, "D and zr shifted", q.write(pr))
		q = e.copy()
		q.a[0] = gtadd(q.a[0], gtmul(gtE, d))
		q.zv[0] = fa(q.zv[0], d)
		s.judge(c, "a and zv shifted", q.write(pr))
	}
	if s.l > 1 {
		i, j := 0, 1+c.R.Intn(s.l-1)
		differ := fmt.Sprintf("%x", e.V[i].Marshal()) != fmt.Sprintf("%x", e.V[j].Marshal())
		if differ {
			q = e.copy()
			q.V[i], q.V[j] = q.V[j], q.V[i]
			s.judge(c, "V exchanged", q.write(pr))
			q.a[i], q.a[j] = q.a[j], q.a[i]
			q.zv[i], q.zv[j] = q.zv[j], q.zv[i]
			s.judge(c, "V, a, zv exchanged", q.write(pr))
			q.zsig[i], q.zsig[j] = q.zsig[j], q.zsig[i]
			s.judge(c, "digits exchanged", q.write(pr))
			q = e.copy()
			q.V[j], q.a[j], q.zv[j], q.zsig[j] = q.V[i], q.a[i], q.zv[i], q.zsig[i]
			s.judge(c, "digit copied", q.write(pr))
			for name, sw := range map[string]func(){"a": func() { q.a[i], q.a[j] = q.a[j], q.a[i] }, "zv": func() { q.zv[i], q.zv[j] = q.zv[j], q.zv[i] }, "zsig": func() { q.zsig[i], q.zsig[j] = q.zsig[j], q.zsig[i] }} {
				q = e.copy()
				sw()
				s.judge(c, name+" exchanged", q.write(pr))
			}
		}
		// lists that are too short
		for n := 0; n < s.l; n++ {
			q = e.copy()
			q.V, q.a, q.zsig, q.zv = q.V[:n], q.a[:n], q.zsig[:n], q.zv[:n]
			s.judge(c, fmt.Sprint("lists of length ", n), q.write(pr))
			q = e.copy()
			q.V, q.a = q.V[:n], q.a[:n]
			s.judge(c, fmt.Sprint("V and a of length ", n), q.write(pr))
			q = e.copy()
			q.zsig, q.zv = q.zsig[:n], q.zv[:n]
			s.judge(c, fmt.Sprint("zsig and zv of length ", n), q.write(pr))
		}
	}
}

// modLeaf is the value of a leaf, numbers modulo the order.
func modLeaf(l Leaf) string {
	if x, ok := l.V.Interface().(*big.Int); ok && x != nil {
		return modN(x).String()
	}
	return l.Value()
}

// alteredSet lets the honest prover run with parameters that a dishonest one altered.
func alteredSet(c *C) {
	s := newSetSys(c, []int64{3, 5, hostileInt64(c.R)})
	if s == nil {
		return
	}
	x := int64(1000 + c.R.Intn(100000))
	own := c.R.Below(order)
	sign, _ := bb.Sign(I(x), own)
	subst := map[string]*bn256.G2{
		"signature of another element":          s.sig(3),
		"product of signatures":                 g2add(s.sig(3), s.sig(5)),
		"identity":                              g2(I(0)),
		"generator":                             g2(I(1)),
		"signature by another key":              sign,
		"inverse signature of the same element": g2neg(s.sig(5)),
	}
	for _, name := range Keys(subst) {
		sig := subst[name]
		m := map[int64]*bn256.G2{x: sig}
		q := &zk.Set{P: CloneAny(s.params)}
		if !Set(q.P, "signatures", m) {
			c.Count("parameters not recognized")
			return
		}
		_, r := blinding(c.R)
		pr, _ := proveSet(q, x, r)
		if pr == nil {
			c.Count("prover failed with altered parameters")
			continue
		}
		s.judge(c, "prover with altered parameters: "+name, pr)
	}
	// a prover with another element H
	q := &zk.Set{P: CloneAny(s.params)}
	Set(q.P, "H", g2(c.R.Below(order)))
	if pr, _ := proveSet(q, 3, c.R.Below(order)); pr != nil {
		s.judge(c, "prover with another H", pr)
	}
}

// alteredUL is alteredSet for UL proofs.
func alteredUL(c *C) {
	u, l := int64(2+c.R.Intn(4)), int64(2)
	s := newULSys(c, u, l)
	if s == nil {
		return
	}
	m, _ := Get[map[string]*bn256.G2](s.params, "signatures")
	with := func(f func(q any), x *big.Int, what string) {
		q := &zk.UL{P: CloneAny(s.params)}
		f(q.P)
		pr, _ := proveUL(q, x, c.R.Below(order))
		if pr == nil {
			c.Count("prover failed with altered parameters")
			return
		}
		s.judge(c, "prover with altered parameters: "+what, pr)
	}
	// another base or length: proves another range
	with(func(q any) { Set(q, "l", l+1) }, power(u, l), "longer, value above the range")
	with(func(q any) { Set(q, "l", l+1) }, power(u, l+1).Sub(power(u, l+1), I(1)), "longer, largest value")
	with(func(q any) { Set(q, "l", l-1) }, I(1), "shorter")
	more := map[string]*bn256.G2{}
	for k, v := range m {
		more[k] = v
	}
	for i, sig := range []*bn256.G2{s.sig(1), g2(I(0)), g2(I(1)), g2add(s.sig(0), s.sig(1))} {
		ext := map[string]*bn256.G2{}
		for k, v := range more {
			ext[k] = v
		}
		ext[fmt.Sprint(u)] = sig
		with(func(q any) { Set(q, "u", u+1); Set(q, "signatures", ext) }, new(big.Int).Add(I(u), new(big.Int).Mul(I(u), I(u+1))), fmt.Sprint("larger digits, signature ", i))
	}
	with(func(q any) {
		ext := map[string]*bn256.G2{}
		for k, v := range more {
			ext[k] = v
		}
		ext["0"], ext["1"] = ext["1"], ext["0"]
		Set(q, "signatures", ext)
	}, I(1), "exchanged signatures")
	with(func(q any) { Set(q, "H", g2(c.R.Below(order))) }, I(1), "another H")
	// the same keys, other range: parameters with the same signatures, but shorter
	long := &zk.UL{P: CloneAny(s.params)}
	pr, _ := proveUL(s.ul, power(u, l-1), c.R.Below(order))
	if pr != nil && Set(long.P, "l", l-1) {
		if o := verifyUL(long, pr); o.Accepted() {
			c.Fail("a proof for [0,%d^%d) of %s is accepted for [0,%d^%d)", u, l, power(u, l-1), u, l-1)
		}
		c.Eval("longer proof under shorter parameters")
	}
}

var smallPowers map[string]*big.Int

// knownLog is the logarithm of h if it is one that a prover would find.
func knownLog(h *bn256.G2, more ...*big.Int) *big.Int {
	enc := func(p *bn256.G2) string { return fmt.Sprintf("%x", p.Marshal()) }
	if smallPowers == nil {
		smallPowers = map[string]*big.Int{}
		p, g := g2(I(1)), g2(I(1))
		for k := int64(1); k <= 300; k++ {
			smallPowers[enc(p)] = I(k)
			smallPowers[enc(new(bn256.G2).Neg(p))] = fneg(I(k))
			p = g2add(p, g)
		}
		// the constant that a former version of the code multiplied the generator with
		for _, s := range []string{"18560948149108576432482904553159745978835170526553990798435819795989606410925"} {
			k := Bi(s)
			smallPowers[enc(g2(k))] = k
			smallPowers[enc(g2(fneg(k)))] = fneg(k)
		}
		for b := 9; b < 254; b++ {
			smallPowers[enc(g2(Pow2(b)))] = Pow2(b)
		}
	}
	if k, ok := smallPowers[enc(h)]; ok {
		return k
	}
	for _, k := range more {
		if modN(k).Sign() != 0 && enc(g2(k)) == enc(h) {
			return k
		}
	}
	return nil
}

// intervals attacks the link between the halves.
func intervals(c *C) {
	a := int64(c.R.Intn(200))
	b := a + 20 + int64(c.R.Intn(200))
	switch c.R.Intn(3) {
	case 0:
		a = -a - 1
	}
	iv := zk.NewInterval()
	if err, pan := ivSetup(iv, a, b); err != nil || pan != nil {
		c.Count("setup refused an interval")
		return
	}
	ul := iv.UL()
	u, l, ok := ul.Size()
	if !ok {
		c.Count("parameters not recognized")
		return
	}
	top := power(u, l)
	first := func(x, r *big.Int) any {
		v := new(big.Int).Sub(x, I(b))
		pr, _ := proveUL(ul, v.Add(v, top), r)
		return pr
	}
	second := func(x, r *big.Int) any {
		pr, _ := proveUL(ul, new(big.Int).Sub(x, I(a)), r)
		return pr
	}
	judge := func(what string, p1, p2 any, want bool) {
		if p1 == nil || p2 == nil {
			c.Count("prover refused")
			return
		}
		q := &zk.Interval{V: Clone(iv.V)}
		if !q.SetHalf(0, CloneAny(p1)) || !q.SetHalf(1, CloneAny(p2)) {
			c.Count("proof not recognized")
			return
		}
		o := zk.Do(func() (bool, error) { return q.Verify() })
		if want && !o.Accepted() {
			c.Count("calibration: honest halves not accepted")
			return
		}
		if !want && o.Accepted() {
			c.Fail("[%d,%d): accepted: %s", a, b, what)
		}
		c.Eval("interval", what, o.Kind())
		c.Count("interval proofs judged")
	}
	in := func() *big.Int { return new(big.Int).Add(I(a), c.R.Below(I(b-a))) }
	x, r := in(), c.R.Below(order)
	p1, p2 := first(x, r), second(x, r)
	judge("calibration", p1, p2, true)
	y := in()
	for y.Cmp(x) == 0 {
		y = in()
	}
	judge("halves exchanged", p2, p1, I(b-a).Cmp(top) == 0)
	// whoever knows log_g(h) opens one commitment to any secret
	if h, ok := Get[*bn256.G2](ul.P, "H"); ok && h != nil {
		c.Count("logarithms of h looked for")
		if k := knownLog(h, I(a), I(b), I(u), I(l), top); k != nil {
			y := new(big.Int).Add(I(b), c.R.Below(new(big.Int).Sub(top, I(b-a))))
			// x - b + ul + k r = y - a - (b - a - ul) + k r2: the second half is about y
			r2 := fm(fa(fa(x, fm(k, r)), fneg(y)), finv(k))
			judge(fmt.Sprintf("the logarithm of h is %s; the first half is about %s, the second about %s", k, x, y), first(x, r), second(y, r2), false)
		}
	}
	judge("halves about different secrets", p1, second(y, r), false)
	judge("halves about different secrets, other blinding", p1, second(y, c.R.Below(order)), false)
	above := new(big.Int).Add(I(b), I(int64(c.R.Intn(50))))
	below := new(big.Int).Sub(I(a), I(int64(1+c.R.Intn(50))))
	judge("a secret above, the first half about another one", first(x, r), second(above, r), false)
	judge("a secret below, the second half about another one", first(below, r), second(x, r), false)
	judge("a secret above", first(above, r), second(above, r), false)
	judge("a secret below", first(below, r), second(below, r), false)
	if top.Cmp(I(b-a)) != 0 {
		judge("first half twice", p1, p1, false)
		judge("second half twice", p2, p2, false)
	}
	// a half without a proof, or with one for another statement
	e1, ok1 := read(p1)
	e2, ok2 := read(p2)
	if ok1 && ok2 {
		q := e2.copy()
		q.zsig[0] = fa(q.zsig[0], I(1))
		judge("second half invalid", p1, q.write(p2), false)
		q = e1.copy()
		q.zsig[0] = fa(q.zsig[0], I(1))
		judge("first half invalid", q.write(p1), p2, false)
		// commitments linked by force
		o, _ := read(second(y, r))
		shift := new(big.Int).Sub(I(b), I(a))
		shift.Sub(shift, top)
		q = o.copy()
		q.C = g2add(e1.C, g2(shift))
		judge("commitment of the second half replaced", p1, q.write(p2), false)
		q = e1.copy()
		q.C = g2add(o.C, g2neg(g2(shift)))
		judge("commitment of the first half replaced", q.write(p1), o.write(p2), false)
		// inverse commitments
		neg := new(big.Int).Neg(new(big.Int).Sub(new(big.Int).Add(x, top), I(b)))
		if v := new(big.Int).Mod(neg, order); v.Cmp(top) < 0 {
			pr, _ := proveUL(ul, v, fneg(r))
			judge("inverse commitment", pr, p2, false)
		}
	}
	// parameters of another setup
	iv2 := zk.NewInterval()
	if err, pan := ivSetup(iv2, a, b); err == nil && pan == nil {
		q := &zk.Interval{V: Clone(iv2.V)}
		if q.SetHalf(0, CloneAny(p1)) && q.SetHalf(1, CloneAny(p2)) {
			if o := zk.Do(func() (bool, error) { return q.Verify() }); o.Accepted() {
				c.Fail("[%d,%d): a proof is accepted under the parameters of another setup", a, b)
			}
			c.Eval("interval", "other setup")
		}
	}
}

var p14 = Prop{
	ID:   "P14",
	Rule: "components of valid set, UL and interval proofs replaced, exchanged and shifted; proofs by a dishonest prover written for the harness (false digits, foreign signatures, identity as signature, simulated transcripts, every component chosen after the challenge, compensating digits and equations, altered parameters, halves about different secrets); none may be accepted. The dishonest prover is calibrated by an honest run in every case. Distinct: system, strategy, outcome.",
	Min:  100,
	Suites: []Suite{
		{"forge ul", 12, 240, func(c *C) {
			if s := newULSys(c, int64(2+c.R.Intn(6)), int64(1+c.Idx%3)); s != nil {
				forgeries(c, s, 0)
			}
		}},
		{"tamper ul", 9, 240, func(c *C) {
			if s := newULSys(c, int64(2+c.R.Intn(6)), int64(1+c.Idx%3)); s != nil {
				tampering(c, s)
			}
		}},
		{"intervals", 8, 120, func(c *C) { intervals(c) }},
		{"forge set", 16, 400, func(c *C) {
			set := []int64{hostileInt64(c.R), 7, -9}
			if s := newSetSys(c, set[c.R.Intn(3):]); s != nil {
				forgeries(c, s, 0)
			}
		}},
		{"tamper set", 16, 400, func(c *C) {
			if s := newSetSys(c, []int64{hostileInt64(c.R), 7, -9}); s != nil {
				tampering(c, s)
			}
		}},
		{"altered parameters", 12, 200, func(c *C) {
			if c.Idx%2 == 0 {
				alteredSet(c)
			} else {
				alteredUL(c)
			}
		}},
	},
}

// degenerate makes proofs with special values in place of one component, such that only
// one equation fails.
func degenerate(c *C, s *sys, tmpl any, sh shape, digits func() ([]*big.Int, []int64)) {
	fresh := func() *attack {
		x, with := digits()
		return s.prepare(c, tmpl, sh, x, with)
	}
	special := func(a *attack) map[string]*bn256.G2 {
		return map[string]*bn256.G2{"identity": g2(I(0)), "generator": g2(I(1)), "inverse generator": g2(I(-1)), "H": Clone(s.H), "1/H": g2neg(Clone(s.H)),
			"C": Clone(a.e.C), "D": Clone(a.e.D), "V": Clone(a.e.V[0]), "1/C": g2neg(Clone(a.e.C)), "1/D": g2neg(Clone(a.e.D)), "signature": s.sig(s.msgs[0])}
	}
	differs := func(p, q *bn256.G2) bool { return fmt.Sprintf("%x", p.Marshal()) != fmt.Sprintf("%x", q.Marshal()) }
	pickOne := func(name string) bool { return name == "identity" || c.R.Intn(4) == 0 }
	for _, name := range Keys(special(fresh())) {
		if pickOne(name) {
			a := fresh()
			if v := special(a)[name]; differs(v, a.e.C) {
				a.e.C = v
				a.respond(a.challenge())
				a.submit("C is special: " + name)
			}
		}
		if pickOne(name) {
			a := fresh()
			if v := special(a)[name]; differs(v, a.e.D) {
				a.e.D = v
				a.respond(a.challenge())
				a.submit("D is special: " + name)
			}
		}
		if pickOne(name) && name != "signature" {
			// V is special, with everything else as if it were the signature
			a := fresh()
			i := c.R.Intn(s.l)
			if v := special(a)[name]; differs(v, a.e.V[i]) {
				a.e.V[i] = v
				a.respond(a.challenge())
				a.submit("V is special: " + name)
				// the equation holds, for as far as V goes
				a = fresh()
				a.e.V[i] = v
				a.e.a[i] = gtadd(gtmul(bn256.Pair(gen1, v), fneg(a.s[i])), gtmul(gtE, a.t[i]))
				a.respond(a.challenge())
				a.submit("V is special, a fits: " + name)
				a.respond(a.challenge())
				a.e.zv[i] = a.t[i]
				a.submit("V is special, a and zv fit: " + name)
			}
		}
	}
	// a
	for _, k := range []*big.Int{I(0), I(1), I(-1)} {
		a := fresh()
		i := c.R.Intn(s.l)
		a.e.a[i] = gtmul(gtE, k)
		a.respond(a.challenge())
		a.submit(fmt.Sprintf("a is E^%s", k))
	}
	// responses
	for _, k := range []*big.Int{I(0), I(1), I(-1)} {
		i := c.R.Intn(s.l)
		a := fresh()
		a.respond(a.challenge())
		a.e.zr = k
		a.submit(fmt.Sprintf("zr is %s", k))
		a.respond(a.challenge())
		a.e.zv[i] = k
		a.submit(fmt.Sprintf("zv is %s", k))
		// with D, or C, chosen such that its equation holds whatever zsig is
		a.respond(a.challenge())
		a.e.zsig[i] = k
		a.submit(fmt.Sprintf("zsig is %s", k))
	}
	if s.l > 1 {
		// the same signature, commitment and nonces in all digits, of which one is false
		for j := 0; j < s.l; j++ {
			for _, n := range []int{2, s.l} {
				x, with := digits()
				first := c.R.Intn(s.l)
				second := (first + 1) % s.l
				for i := range x {
					if n == s.l || i == second {
						x[i], with[i] = x[first], with[first]
					}
				}
				a := s.prepare(c, tmpl, sh, x, with)
				for i := range x {
					if n == s.l || i == second {
						a.v[i], a.t[i], a.s[i] = a.v[first], a.t[first], a.s[first]
						a.e.V[i], a.e.a[i] = a.e.V[first], a.e.a[first]
					}
				}
				false_ := j
				if n == 2 {
					false_ = []int{first, second}[c.R.Intn(2)]
				}
				a.x[false_] = fa(a.x[false_], I(1000+int64(c.R.Intn(1000))))
				a.e.D, a.e.C = g2mul(s.H, a.m), g2mul(s.H, a.r)
				for i := range x {
					a.e.D = g2add(a.e.D, g2(fm(a.s[i], s.weight(i))))
					a.e.C = g2add(a.e.C, g2(fm(a.x[i], s.weight(i))))
				}
				a.respond(a.challenge())
				a.submit(fmt.Sprintf("the same signature in %d digits, one of which is false", n))
			}
		}
	}
}
