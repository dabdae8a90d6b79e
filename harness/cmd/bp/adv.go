package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
)

// This file is a prover that is not honest. It shares no code with the prover under test
// except group operations, the challenge function and the inner-product prover.

var order = ref.SecN

func fm(xs ...*big.Int) *big.Int { // product
	r := I(1)
	for _, x := range xs {
		r.Mul(r, x).Mod(r, order)
	}
	return r
}
func fa(xs ...*big.Int) *big.Int { // sum
	r := I(0)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r.Mod(r, order)
}
func fneg(x *big.Int) *big.Int { return ModN(new(big.Int).Neg(x)) }
func finv(x *big.Int) *big.Int { return new(big.Int).ModInverse(ModN(x), order) }

func vadd(a, b []*big.Int) []*big.Int {
	o := make([]*big.Int, len(a))
	for i := range a {
		o[i] = fa(a[i], b[i])
	}
	return o
}
func vmul(a, b []*big.Int) []*big.Int {
	o := make([]*big.Int, len(a))
	for i := range a {
		o[i] = fm(a[i], b[i])
	}
	return o
}
func vscale(a []*big.Int, k *big.Int) []*big.Int {
	o := make([]*big.Int, len(a))
	for i := range a {
		o[i] = fm(a[i], k)
	}
	return o
}
func vconst(k *big.Int, n int) []*big.Int {
	o := make([]*big.Int, n)
	for i := range o {
		o[i] = ModN(k)
	}
	return o
}
func vpow(y *big.Int, n int) []*big.Int {
	o := make([]*big.Int, n)
	k := I(1)
	for i := range o {
		o[i] = k
		k = fm(k, y)
	}
	return o
}
func dot(a, b []*big.Int) *big.Int { return ref.InnerProduct(a, b, order) }
func vrand(c *C, n int) []*big.Int {
	o := make([]*big.Int, n)
	for i := range o {
		o[i] = c.R.Below(order)
	}
	return o
}

func multiexp(g []*p256.P256, e []*big.Int) *p256.P256 {
	r := inf()
	for i := range g {
		r.Multiply(r, mul(g[i], e[i]))
	}
	return r
}

// transcript says how challenges are derived: lists of indices into (V,A,S) and
// (V,A,S,T1,T2), and which outputs of the hash are used.
type transcript struct {
	yz    []int
	yzOut int // 0: first and second, 1: second and first, 2: first twice, 3: second twice
	x     []int
	xOut  int
}

func (t transcript) String() string {
	names := []string{"V", "A", "S", "T1", "T2"}
	f := func(l []int) string {
		s := ""
		for _, i := range l {
			s += names[i] + " "
		}
		return s
	}
	return fmt.Sprintf("y,z=H(%s)/%d x=H(%s)/%d", f(t.yz), t.yzOut, f(t.x), t.xOut)
}

var fullTranscript = transcript{yz: []int{0, 1, 2}, x: []int{0, 1, 2, 3, 4}}

func has(l []int, i int) bool {
	for _, j := range l {
		if i == j {
			return true
		}
	}
	return false
}

func hbp(ps []*p256.P256, idx []int) (a, b *big.Int) {
	var in []*p256.P256
	for _, i := range idx {
		in = append(in, ps[i])
	}
	a, b, _ = bulletproofs.HashBP(in...)
	return a, b
}

func (t transcript) challengeYZ(ps []*p256.P256) (y, z *big.Int) {
	a, b := hbp(ps, t.yz)
	switch t.yzOut {
	case 1:
		return b, a
	case 2:
		return a, a
	case 3:
		return b, b
	}
	return a, b
}

func (t transcript) challengeX(ps []*p256.P256) *big.Int {
	a, b := hbp(ps, t.x)
	if t.xOut == 1 {
		return b
	}
	return a
}

// subsets lists the subsequences of 0..n-1, and all orders of them if orders is set.
func subsets(n int, orders bool) [][]int {
	var out [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		out = append(out, append([]int(nil), cur...))
		for i := 0; i < n; i++ {
			if has(cur, i) || (!orders && len(cur) > 0 && i < cur[len(cur)-1]) {
				continue
			}
			rec(append(cur, i))
		}
	}
	rec(nil)
	return out
}

func deltaYZ(y, z *big.Int, n int) *big.Int {
	sy, s2 := I(0), I(0)
	for _, k := range vpow(y, n) {
		sy = fa(sy, k)
	}
	for _, k := range vpow(I(2), n) {
		s2 = fa(s2, k)
	}
	return fa(fm(fa(z, fneg(fm(z, z))), sy), fneg(fm(z, z, z, s2)))
}

// discover finds out how the challenges of an honest proof were derived.
func discover(pr *proof, orders bool) (transcript, bool) {
	ps := []*p256.P256{pr.V, pr.A, pr.S, pr.T1, pr.T2}
	n := int(pr.Params.N)
	lhs := add(gmul(pr.Tprime), mul(pr.Params.H, pr.Taux))
	type cx struct {
		idx []int
		out int
	}
	xs := map[string]cx{}
	for _, idx := range subsets(5, orders) {
		if len(idx) == 0 {
			continue
		}
		a, b := hbp(ps, idx)
		for o, x := range []*big.Int{a, b} {
			k := PStr(add(mul(pr.T1, x), mul(pr.T2, fm(x, x))))
			if old, ok := xs[k]; !ok || len(old.idx) < len(idx) {
				xs[k] = cx{idx, o}
			}
		}
	}
	for _, idx := range subsets(3, orders) {
		if len(idx) == 0 {
			continue
		}
		for o := 0; o < 4; o++ {
			t := transcript{yz: idx, yzOut: o}
			y, z := t.challengeYZ(ps)
			w := add(lhs, neg(add(mul(pr.V, fm(z, z)), gmul(deltaYZ(y, z, n)))))
			if x, ok := xs[PStr(w)]; ok {
				t.x, t.xOut = x.idx, x.out
				return t, true
			}
		}
	}
	return fullTranscript, false
}

// adv is the state of a dishonest prover.
type adv struct {
	c                      *C
	n                      int
	p                      params
	t                      transcript
	v, gamma               *big.Int
	aL, aR, sL, sR         []*big.Int
	alpha, rho, tau1, tau2 *big.Int
	V, A, S, T1, T2        *p256.P256
	y, z, x                *big.Int
	t0, t1, t2             *big.Int // coefficients of <l(X),r(X)>
	tc1, tc2               *big.Int // what T1 and T2 commit to
	l, r                   []*big.Int
	hp                     []*p256.P256
	tprime, taux, mu       *big.Int
	Commit                 *p256.P256
}

func newAdv(c *C, p params, t transcript) *adv {
	n := int(p.N)
	return &adv{c: c, n: n, p: p, t: t, gamma: c.R.Below(order), alpha: c.R.Below(order), rho: c.R.Below(order),
		tau1: c.R.Below(order), tau2: c.R.Below(order), sL: vrand(c, n), sR: vrand(c, n)}
}

// digits sets aL to the binary digits of x, and aR accordingly.
func (a *adv) digits(x *big.Int) {
	a.aL = nil
	for i := 0; i < a.n; i++ {
		a.aL = append(a.aL, I(int64(new(big.Int).And(x, new(big.Int).Sub(Pow2(a.n), I(1))).Bit(i))))
	}
	a.complement()
}

func (a *adv) complement() { a.aR = vadd(a.aL, vconst(I(-1), a.n)) }

func (a *adv) commitV() { a.V = add(gmul(a.v), mul(a.p.H, a.gamma)) }
func (a *adv) commitA() {
	a.A = add(mul(a.p.H, a.alpha), add(multiexp(a.p.Gg, a.aL), multiexp(a.p.Hh, a.aR)))
}
func (a *adv) commitS() {
	a.S = add(mul(a.p.H, a.rho), add(multiexp(a.p.Gg, a.sL), multiexp(a.p.Hh, a.sR)))
}
func (a *adv) commitT(t1, t2 *big.Int) {
	a.tc1, a.tc2 = t1, t2
	a.T1 = add(gmul(t1), mul(a.p.H, a.tau1))
	a.T2 = add(gmul(t2), mul(a.p.H, a.tau2))
}

// points is the transcript so far; what is not chosen yet is not part of the challenge.
func (a *adv) points() []*p256.P256 {
	o := []*p256.P256{a.V, a.A, a.S, a.T1, a.T2}
	for i := range o {
		if o[i] == nil {
			o[i] = inf()
		}
	}
	return o
}
func (a *adv) askYZ() { a.y, a.z = a.t.challengeYZ(a.points()) }
func (a *adv) askX()  { a.x = a.t.challengeX(a.points()) }

// polynomials computes l, r at 0 and 1 and the coefficients of their product.
func (a *adv) polynomials() (l0, r0, r1 []*big.Int) {
	y := vpow(a.y, a.n)
	l0 = vadd(a.aL, vconst(fneg(a.z), a.n))
	r0 = vadd(vmul(y, vadd(a.aR, vconst(a.z, a.n))), vscale(vpow(I(2), a.n), fm(a.z, a.z)))
	r1 = vmul(y, a.sR)
	a.t0, a.t1, a.t2 = dot(l0, r0), fa(dot(l0, r1), dot(a.sL, r0)), dot(a.sL, r1)
	return
}

// respond computes everything after the challenge x; l, r are the true ones.
func (a *adv) respond() {
	l0, r0, r1 := a.polynomials()
	a.l = vadd(l0, vscale(a.sL, a.x))
	a.r = vadd(r0, vscale(r1, a.x))
	a.tprime = dot(a.l, a.r)
	a.taux = fa(fm(a.tau2, a.x, a.x), fm(a.tau1, a.x), fm(a.z, a.z, a.gamma))
	a.mu = fa(a.alpha, fm(a.rho, a.x))
	a.generators()
	a.commitLR()
}

func (a *adv) generators() {
	yi := finv(a.y)
	a.hp = nil
	for i, k := range vpow(yi, a.n) {
		a.hp = append(a.hp, mul(a.p.Hh[i], k))
	}
}

func (a *adv) commitLR() { a.Commit = add(multiexp(a.p.Gg, a.l), multiexp(a.hp, a.r)) }

// target is the value of tprime that satisfies (65) for the committed T1, T2 and V.
func (a *adv) target() *big.Int {
	return fa(fm(a.z, a.z, a.v), deltaYZ(a.y, a.z, a.n), fm(a.tc1, a.x), fm(a.tc2, a.x, a.x))
}

// commit67 is the value of Commit that satisfies (67).
func (a *adv) commit67() *p256.P256 {
	e := vadd(vscale(vpow(a.y, a.n), a.z), vscale(vpow(I(2), a.n), fm(a.z, a.z)))
	p := add(a.A, mul(a.S, a.x))
	p = add(p, multiexp(a.p.Gg, vconst(fneg(a.z), a.n)))
	p = add(p, multiexp(a.hp, e))
	return add(p, neg(mul(a.p.H, a.mu)))
}

// fixLR changes l such that <l,r> = t.
func (a *adv) fixLR(t *big.Int) {
	d := fa(t, fneg(dot(a.l, a.r)))
	for i := range a.r {
		if a.r[i].Sign() != 0 {
			a.l = append([]*big.Int(nil), a.l...)
			a.l[i] = fa(a.l[i], fm(d, finv(a.r[i])))
			return
		}
	}
}

// argument proves <l,r> = claim for the commitment P, over the given generators.
func argument(c *C, gg, hh []*p256.P256, l, r []*big.Int, P *p256.P256, claim *big.Int, tweak func(*bulletproofs.InnerProductParams)) bulletproofs.InnerProductProof {
	prm, err := bulletproofs.VerifSetupInnerProduct(nil, gg, hh, claim, int64(len(l)))
	if err != nil {
		c.Count("inner-product setup refused")
	}
	if tweak != nil {
		tweak(&prm)
	}
	pr, err := bulletproofs.VerifProveInnerProduct(l, r, P, prm)
	if err != nil {
		c.Count("inner-product prover refused")
	}
	return pr
}

func (a *adv) assemble(ip bulletproofs.InnerProductProof) *proof {
	return Clone(&proof{V: a.V, A: a.A, S: a.S, T1: a.T1, T2: a.T2, Taux: a.taux, Mu: a.mu, Tprime: a.tprime, InnerProductProof: ip, Commit: a.Commit, Params: a.p})
}

func (a *adv) ip() bulletproofs.InnerProductProof {
	return argument(a.c, a.p.Gg, a.hp, a.l, a.r, a.Commit, a.tprime, nil)
}

// inOrder follows the protocol with whatever digits and value are set.
func (a *adv) inOrder() {
	a.commitV()
	a.commitA()
	a.commitS()
	a.askYZ()
	a.polynomials()
	a.commitT(a.t1, a.t2)
	a.askX()
	a.respond()
}
