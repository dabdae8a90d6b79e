package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

// secrets is what must not be found in anything handed out.
type secrets struct {
	n     *big.Int          // group order
	val   map[string]string // residue -> name, both signs
	words map[string]string // texts -> name
}

func newSecrets(n *big.Int) *secrets {
	return &secrets{n, map[string]string{}, map[string]string{}}
}

// add registers a secret; values that may occur by chance in public data are ignored.
func (s *secrets) add(name string, v *big.Int) {
	r := new(big.Int).Mod(v, s.n)
	m := new(big.Int).Mod(new(big.Int).Neg(v), s.n)
	if r.BitLen() < 12 || m.BitLen() < 12 {
		return
	}
	s.val[r.String()] = name
	s.val[m.String()] = "-" + name
	for _, x := range []*big.Int{v, r, m} {
		if x.BitLen() < 30 {
			continue
		}
		s.words[x.Text(10)] = name
		s.words[x.Text(16)] = name
		s.words[string(x.Bytes())] = name
	}
}

func (s *secrets) find(v *big.Int) (string, bool) {
	n, ok := s.val[new(big.Int).Mod(v, s.n).String()]
	return n, ok
}

// scalars lists the numbers in a value: integers, and whatever byte strings, texts and
// vectors of words stand for when they are read as a number.
func scalars(x any) (paths []string, vals []*big.Int) {
	add := func(p string, v *big.Int) { paths, vals = append(paths, p), append(vals, v) }
	var elems []uint64
	var parent string
	var bits uint
	flush := func() {
		if len(elems) >= 2 && (bits > 8 || len(elems) >= 4) {
			be, le := new(big.Int), new(big.Int)
			for i := range elems {
				be.Lsh(be, bits).Add(be, new(big.Int).SetUint64(elems[i]))
				le.Lsh(le, bits).Add(le, new(big.Int).SetUint64(elems[len(elems)-1-i]))
			}
			add(parent+" (big-endian)", be)
			add(parent+" (little-endian)", le)
			if bits == 8 {
				b := make([]byte, len(elems))
				for i := range b {
					b[i] = byte(elems[i])
				}
				readText(parent, string(b), add)
			}
		}
		elems, parent, bits = nil, "", 0
	}
	for _, l := range Leaves(x) {
		if k := l.V.Kind(); k >= reflect.Uint && k <= reflect.Uintptr && strings.HasSuffix(l.Path, "]") {
			p := l.Path[:strings.LastIndex(l.Path, "[")]
			if p != parent || bits != uint(l.V.Type().Bits()) {
				flush()
				parent, bits = p, uint(l.V.Type().Bits())
			}
			elems = append(elems, l.V.Uint())
			continue
		}
		flush()
		switch v := l.V.Interface().(type) {
		case *big.Int:
			if v != nil {
				add(l.Path, new(big.Int).Set(v))
			}
			continue
		}
		switch k := l.V.Kind(); {
		case k == reflect.String:
			readText(l.Path, l.V.String(), add)
		case k >= reflect.Int && k <= reflect.Int64:
			add(l.Path, I(l.V.Int()))
		case k >= reflect.Uint && k <= reflect.Uintptr:
			add(l.Path, new(big.Int).SetUint64(l.V.Uint()))
		}
	}
	flush()
	return
}

// readText reads a text as a number: its bytes, decimal, hexadecimal, base 64.
func readText(path, t string, add func(string, *big.Int)) {
	if len(t) < 4 || len(t) > 1<<12 {
		return
	}
	add(path+" (bytes)", new(big.Int).SetBytes([]byte(t)))
	t = strings.TrimSpace(t)
	if v, ok := new(big.Int).SetString(t, 10); ok {
		add(path+" (decimal)", v)
	}
	if v, ok := new(big.Int).SetString(strings.TrimPrefix(t, "0x"), 16); ok {
		add(path+" (hexadecimal)", v)
	}
	for _, e := range []*base64.Encoding{base64.StdEncoding, base64.RawStdEncoding, base64.URLEncoding, base64.RawURLEncoding} {
		if b, err := e.DecodeString(t); err == nil {
			add(path+" (base 64)", new(big.Int).SetBytes(b))
		}
	}
}

// texts collects strings and byte strings.
func texts(x any) string {
	var b strings.Builder
	last := ""
	for _, l := range Leaves(x) {
		switch l.V.Kind() {
		case reflect.String:
			b.WriteString("\x00" + l.V.String())
		case reflect.Uint8:
			p := l.Path[:strings.LastIndex(l.Path+"[", "[")]
			if p != last {
				b.WriteString("\x00")
			}
			last = p
			b.WriteByte(byte(l.V.Uint()))
		}
	}
	return b.String()
}

// scan looks for secrets in out: as scalars, shifted by public values, divided by public
// challenges, as sums or differences of two scalars, and as text.
func scan(c *C, what string, out any, s *secrets, public []*big.Int, mults []*big.Int) {
	paths, vals := scalars(out)
	shifts := []*big.Int{I(0)}
	for _, p := range public {
		shifts = append(shifts, p, new(big.Int).Neg(p))
	}
	for i, z := range vals {
		for k, m := range mults {
			zm := new(big.Int).Mul(z, m)
			zm.Mod(zm, s.n)
			for j, d := range shifts {
				if n, ok := s.find(new(big.Int).Add(zm, d)); ok {
					c.Fail("%s: %s gives away %s (public factor %d, shift %d)", what, paths[i], n, k, j)
				}
			}
		}
		for j := range vals {
			if j == i || len(vals) > 60 {
				continue
			}
			if n, ok := s.find(new(big.Int).Add(z, vals[j])); ok && j > i {
				c.Fail("%s: the sum of %s and %s is %s", what, paths[i], paths[j], n)
			}
			if n, ok := s.find(new(big.Int).Sub(z, vals[j])); ok {
				c.Fail("%s: the difference of %s and %s is %s", what, paths[i], paths[j], n)
			}
		}
		c.Count("scalars searched")
	}
	// a number that was not reduced gives away what a challenge was multiplied with
	for i, z := range vals {
		if z.BitLen() <= s.n.BitLen()+8 {
			continue
		}
		for _, m := range mults {
			ch := new(big.Int).ModInverse(m, s.n)
			if ch == nil || ch.BitLen() < 16 {
				continue
			}
			for _, q := range []*big.Int{ch, new(big.Int).Mul(ch, ch), new(big.Int).Mul(new(big.Int).Mul(ch, ch), ch)} {
				v := new(big.Int).Div(z, q)
				for d := int64(-2); d <= 2; d++ {
					if n, ok := s.find(new(big.Int).Add(v, I(d))); ok {
						c.Fail("%s: %s divided by a challenge is %s", what, paths[i], n)
					}
				}
			}
		}
		c.Count("long scalars divided by challenges")
	}
	c.CountN("secrets tracked", len(s.val)/2)
	t := texts(out)
	for w, n := range s.words {
		if strings.Contains(t, w) {
			c.Fail("%s contains a text or byte string of %s", what, n)
		}
	}
}

func scanText(c *C, what, t string, s *secrets) {
	for w, n := range s.words {
		if len(w) > 8 && strings.Contains(t, w) {
			c.Fail("%s contains the text of %s", what, n)
		}
	}
	c.CountN("bytes of text searched", len(t))
}

// pointSet is a table of secp256k1 points with their names.
type pointSet map[string]string

func (s pointSet) add(name string, p *p256.P256) { s[PStr(p)] = name }

func bpLeak(c *C, n int) {
	p, ok := setup(c, n)
	if !ok {
		return
	}
	pub := Digest(&p)
	type blinds struct{ v, a string }
	var all []blinds
	var proofs []*proof
	for t := 0; t < 2; t++ {
		x := c.R.Bits(n)
		rec := c.InstallSeeded(fmt.Sprint("leak", t))
		pr := prove(c, x, p)
		if pr == nil {
			return
		}
		v, a := bpLeakProof(c, fmt.Sprintf("proof %d of [0,2^%d)", t, n), pr, x, rec.Scalars(ref.SecN), nil)
		all = append(all, blinds{v, a})
		proofs = append(proofs, pr)
		c.Eval("bulletproof", n, popcount(x))
	}
	if all[0].v == all[1].v || all[0].a == all[1].a || all[0].v == all[1].a || all[0].a == all[1].v {
		c.Fail("[0,2^%d): two proofs share the blinding of V or A", n)
	}
	if PStr(proofs[0].S) == PStr(proofs[1].S) {
		c.Fail("[0,2^%d): two proofs share S", n)
	}
	if Digest(&p) != pub {
		c.Fail("[0,2^%d): proving changed the public parameters", n)
	}
}

// bpLeakProof searches one proof and returns its blinding elements of V and A.
func bpLeakProof(c *C, what string, pr *proof, x *big.Int, draws []*big.Int, more map[string]*big.Int) (string, string) {
	n := int(pr.Params.N)
	s := newSecrets(ref.SecN)
	s.add("the secret", x)
	for k, v := range more {
		s.add(k, v)
	}
	for i, d := range draws {
		s.add(fmt.Sprintf("nonce %d", i), d)
	}
	if len(draws) == 0 {
		c.Count("no draws seen")
	}
	// challenges as the verifier computes them
	ps := []*p256.P256{pr.V, pr.A, pr.S, pr.T1, pr.T2}
	t, found := discover(pr, false)
	public := []*big.Int{I(1), I(2), Pow2(n), Pow2(32)}
	mults := []*big.Int{I(1)}
	var y, z, xx *big.Int
	if found {
		y, z = t.challengeYZ(ps)
		xx = t.challengeX(ps)
		zi, xi := finv(z), finv(xx)
		public = append(public, y, z, xx, fm(z, z))
		mults = append(mults, zi, fm(zi, zi), xi, fm(xi, xi), finv(y))
		// <l,r> must be blinded
		v := fm(fa(pr.Tprime, fneg(deltaYZ(y, z, n))), zi, zi)
		if v.Cmp(x) == 0 {
			c.Fail("%s: Tprime gives away the secret", what)
		}
		if n == 1 {
			aL := new(big.Int).And(x, I(1))
			if fa(pr.InnerProductProof.A, z).Cmp(aL) == 0 {
				c.Fail("%s: the inner-product argument gives away the digit", what)
			}
		}
	} else {
		c.Count("challenges not recognized")
	}
	scan(c, what, pr, s, public, mults)
	if b, err := json.Marshal(pr); err == nil {
		scanText(c, what+" as JSON", string(b), s)
	}

	// group elements
	h := pr.Params.H
	table := pointSet{}
	for i, d := range []*big.Int{I(0), I(1), I(-1), I(2), I(-2), x, new(big.Int).Neg(x), I(int64(n)), Pow2(n), z, y, xx} {
		if d != nil {
			table.add(fmt.Sprintf("h^public%d", i), mul(h, d))
			if i > 0 {
				table.add(fmt.Sprintf("g^public%d", i), gmul(d))
			}
		}
	}
	for i, d := range draws {
		table.add(fmt.Sprintf("g^(nonce %d)", i), gmul(d))
		table.add(fmt.Sprintf("g^-(nonce %d)", i), neg(gmul(d)))
	}
	nonce := pointSet{}
	for i, d := range draws {
		nonce.add(fmt.Sprintf("nonce %d", i), mul(h, d))
	}
	V := add(pr.V, neg(gmul(x)))
	aL, aR := make([]*big.Int, n), make([]*big.Int, n)
	for i := range aL {
		aL[i] = I(int64(x.Bit(i)))
		aR[i] = new(big.Int).Sub(aL[i], I(1))
	}
	A := add(pr.A, neg(add(multiexp(pr.Params.Gg, aL), multiexp(pr.Params.Hh, aR))))
	if name, ok := table[PStr(V)]; ok {
		c.Fail("%s: V is blinded by %s only", what, name)
	}
	if name, ok := table[PStr(A)]; ok {
		c.Fail("%s: A is blinded by %s only", what, name)
	}
	if name, ok := nonce[PStr(pr.S)]; ok {
		c.Fail("%s: S is h^(%s)", what, name)
	}
	if PStr(V) == PStr(A) || PStr(V) == PStr(neg(A)) {
		c.Fail("%s: V and A have the same blinding factor", what)
	}
	for name, q := range map[string]*p256.P256{"V": pr.V, "A": pr.A, "S": pr.S, "T1": pr.T1, "T2": pr.T2} {
		if why, ok := table[PStr(q)]; ok {
			c.Fail("%s: %s is %s", what, name, why)
		}
		if name == "T1" || name == "T2" || name == "S" {
			for d, k := range map[string]*p256.P256{"the blinding of V": V, "the blinding of A": A} {
				if PStr(q) == PStr(k) {
					c.Fail("%s: %s is %s", what, name, d)
				}
			}
		}
	}
	_, okV := nonce[PStr(V)]
	_, okA := nonce[PStr(A)]
	c.Eval("blinding", n, okV, okA)
	c.Count("blindings examined")
	return PStr(V), PStr(A)
}

func genericLeak(c *C) {
	a := int64(c.R.Intn(1<<20)) - 1<<19
	w := []int64{100, 1 << 20, 1 << 32}[c.R.Intn(3)]
	g, err := zk.SetupGeneric(a, a+w)
	if err != nil {
		c.Fail("SetupGeneric(%d,%d): %v", a, a+w, err)
		return
	}
	x := new(big.Int).Add(I(a), c.R.Below(I(w)))
	rec := c.InstallSeeded("generic")
	pr, err := g.Prove(new(big.Int).Set(x))
	if err != nil {
		c.Fail("ProveGeneric: %v", err)
		return
	}
	draws := rec.Scalars(ref.SecN)
	x1 := new(big.Int).Add(new(big.Int).Sub(x, I(a+w)), Pow2(32))
	x2 := new(big.Int).Sub(x, I(a))
	more := map[string]*big.Int{"the secret": x, "the secret of the other half": x1}
	_, a1 := bpLeakProof(c, "first half", &pr.P1, x1, draws, more)
	more["the secret of the other half"] = x2
	_, a2 := bpLeakProof(c, "second half", &pr.P2, x2, draws, more)
	if a1 == a2 {
		c.Fail("both halves have the same blinding of A")
	}
	for _, q := range [][2]*p256.P256{{pr.P1.S, pr.P2.S}, {pr.P1.T1, pr.P2.T1}, {pr.P1.T2, pr.P2.T2}} {
		if PStr(q[0]) == PStr(q[1]) {
			c.Fail("both halves share a commitment")
		}
	}
	s := newSecrets(ref.SecN)
	s.add("the secret", x)
	for i, d := range draws {
		s.add(fmt.Sprintf("nonce %d", i), d)
	}
	paths, vals := scalars(&pr)
	for i := range vals {
		if n, ok := s.find(vals[i]); ok {
			c.Fail("%s is %s", paths[i], n)
		}
	}
	if b, err := json.Marshal(&pr); err == nil {
		scanText(c, "generic proof as JSON", string(b), s)
	}
	c.Eval("generic", w, a < 0)
}

// keyLeak searches public parameters for the signing key.
func keyLeak(c *C, what string, params any, draws []*big.Int) {
	s := newSecrets(ref.BnN)
	for i, d := range draws {
		s.add(fmt.Sprintf("draw %d of the setup (the signing key)", i), d)
	}
	pk, hasKey := Get[*bn256.G1](params, "kp.Pubk")
	if !hasKey {
		if v, ok := Field(params, "p.kp.Pubk"); ok {
			pk, hasKey = v.Interface().(*bn256.G1)
		}
	}
	paths, vals := scalars(params)
	for i, z := range vals {
		if hasKey && z.Sign() != 0 {
			if fmt.Sprintf("%x", new(bn256.G1).ScalarBaseMult(ModB(z)).Marshal()) == fmt.Sprintf("%x", pk.Marshal()) {
				c.Fail("%s: %s is the signing key", what, paths[i])
			}
		}
	}
	scan(c, what, params, s, []*big.Int{I(1), I(2)}, []*big.Int{I(1)})
	// a signature with a public message m is g2^(1/(m+k)); elements g^k or h^k do not occur
	names := map[string]string{}
	key := ""
	for i, d := range draws {
		names[fmt.Sprintf("%x", new(bn256.G2).ScalarBaseMult(d).Marshal())] = fmt.Sprint("g2^draw", i)
		if hasKey && fmt.Sprintf("%x", new(bn256.G1).ScalarBaseMult(d).Marshal()) == fmt.Sprintf("%x", pk.Marshal()) {
			key = fmt.Sprint("g2^draw", i)
		}
	}
	for _, l := range Leaves(params) {
		if g, ok := l.V.Interface().(*bn256.G2); ok && g != nil {
			if n, ok := names[strings.TrimPrefix(l.Value(), "G2")]; ok {
				// the base of commitments may be a random power that nobody keeps
				if isBase := l.Path == "H" || strings.HasSuffix(l.Path, ".H"); isBase && hasKey && n != key {
					c.Count("base of commitments is a random power")
					continue
				}
				c.Fail("%s: %s is %s", what, l.Path, n)
			}
			_ = g
		}
	}
	c.Eval(what, hasKey, len(draws))
	c.Count("public parameters examined")
}

// ModB reduces modulo the order of bn256.
func ModB(x *big.Int) *big.Int { return new(big.Int).Mod(x, ref.BnN) }

// ccsLeak searches one proof (proofSet or proofUL).
func ccsLeak(c *C, what string, pr any, params any, x, r *big.Int, draws, digits []*big.Int) map[string]string {
	s := newSecrets(ref.BnN)
	s.add("the secret", x)
	s.add("the blinding factor", r)
	for i, d := range draws {
		s.add(fmt.Sprintf("nonce %d", i), d)
	}
	mults := []*big.Int{I(1)}
	public := []*big.Int{I(1), I(2)}
	ch, hasC := Get[*big.Int](pr, "c")
	if hasC && ch != nil && ModB(ch).Sign() != 0 {
		mults = append(mults, new(big.Int).ModInverse(ModB(ch), ref.BnN))
		public = append(public, ch)
	} else {
		c.Count("challenge not recognized")
	}
	scan(c, what, pr, s, public, mults)
	// digits as such, and responses with a nonce of zero
	paths, vals := scalars(pr)
	for i, z := range vals {
		for _, m := range mults {
			zm := ModB(new(big.Int).Mul(z, m))
			for j, d := range append([]*big.Int{x}, digits...) {
				if d.Sign() == 0 || d.BitLen() < 2 && paths[i] == "l" {
					continue
				}
				if zm.Cmp(ModB(d)) == 0 || zm.Cmp(ModB(new(big.Int).Neg(d))) == 0 {
					c.Fail("%s: %s gives away digit %d", what, paths[i], j)
				}
			}
		}
	}
	// group elements
	bad := map[string]string{}
	g2 := func(name string, e *bn256.G2) { bad["G2"+fmt.Sprintf("%x", e.Marshal())] = name }
	h, _ := Get[*bn256.G2](params, "H")
	for i, d := range append([]*big.Int{I(0), I(1), I(2), x, r}, draws...) {
		for _, k := range []*big.Int{d, new(big.Int).Neg(d)} {
			g2(fmt.Sprintf("g^%d", i), new(bn256.G2).ScalarBaseMult(ModB(k)))
			if h != nil {
				g2(fmt.Sprintf("h^%d", i), new(bn256.G2).ScalarMult(h, ModB(k)))
			}
		}
	}
	// public signatures and their small powers
	for _, l := range Leaves(params) {
		sig, ok := l.V.Interface().(*bn256.G2)
		if !ok || sig == nil || !strings.HasPrefix(l.Path, "signatures") {
			continue
		}
		for _, d := range []int64{1, -1, 2} {
			g2(fmt.Sprintf("%s^%d", l.Path, d), new(bn256.G2).ScalarMult(sig, ModB(I(d))))
		}
		g2(l.Path+"^secret", new(bn256.G2).ScalarMult(sig, ModB(x)))
		g2(l.Path+"^blinding", new(bn256.G2).ScalarMult(sig, ModB(r)))
	}
	e := bn256.Pair(new(bn256.G1).ScalarBaseMult(I(1)), new(bn256.G2).ScalarBaseMult(I(1)))
	for i, d := range append([]*big.Int{I(0), I(1)}, draws...) {
		for _, k := range []*big.Int{d, new(big.Int).Neg(d)} {
			bad["GT"+fmt.Sprintf("%x", new(bn256.GT).ScalarMult(e, ModB(k)).Marshal())] = fmt.Sprintf("e(g1,g2)^%d", i)
		}
	}
	els := map[string]string{}
	for _, l := range Leaves(pr) {
		v := l.Value()
		els[l.Path] = v
		if n, ok := bad[v]; ok {
			c.Fail("%s: %s is %s", what, l.Path, n)
		}
		if strings.HasPrefix(v, "G") {
			c.Count("group elements searched")
		}
	}
	c.Eval(what, len(draws), hasC)
	return els
}

func sameElements(c *C, what string, a, b map[string]string) {
	for p, v := range a {
		if p == "C" || p == "p1.C" || p == "p2.C" {
			continue
		}
		for q, w := range b {
			if v == w && len(v) > 12 {
				c.Fail("%s: two proofs share %s = %s", what, p, q)
			}
		}
	}
}

var p15 = Prop{
	ID:   "P15",
	Rule: "proofs and parameters are made with a recorded random source; everything in them (scalars, group elements, texts, JSON) is compared with the secret, its digits, the blinding factor, every draw and the signing key: directly, negated, shifted by public values, divided by challenges, as sums and differences, as exponents of the public bases; blinding elements are isolated with the known secret and must be fresh. Distinct: kind of proof, size, secret class.",
	Min:  20,
	Suites: []Suite{
		{"bulletproof", 64, 600, func(c *C) { bpLeak(c, sizes[c.Idx%6]) }},
		{"generic", 12, 120, func(c *C) { genericLeak(c) }},
		{"set", 24, 200, func(c *C) {
			n := 1 + c.R.Intn(4)
			set := make([]int64, n)
			for i := range set {
				set[i] = c.R.Int64()
			}
			rec := c.InstallSeeded("setup")
			sys, err := zk.SetupSet(append([]int64(nil), set...))
			if err != nil {
				c.Fail("SetupSet: %v", err)
				return
			}
			keyLeak(c, "parameters of SetupSet", sys.P, rec.Scalars(ref.BnN))
			x := set[c.R.Intn(n)]
			var prev map[string]string
			for t := 0; t < 2; t++ {
				r := c.R.Below(ref.BnN)
				rec := c.InstallSeeded(fmt.Sprint("prove", t))
				pr, err := sys.Prove(x, new(big.Int).Set(r))
				if err != nil {
					c.Fail("ProveSet: %v", err)
					return
				}
				els := ccsLeak(c, "set proof", pr, sys.P, I(x), r, rec.Scalars(ref.BnN), nil)
				if prev != nil {
					sameElements(c, "set proof", prev, els)
				}
				prev = els
			}
			// a refused proof must not give anything away either
			r := c.R.Below(ref.BnN)
			rec = c.InstallSeeded("refused")
			if pr, err := sys.Prove(x+1, r); err != nil && pr != nil {
				s := newSecrets(ref.BnN)
				s.add("the blinding factor", r)
				for i, d := range rec.Scalars(ref.BnN) {
					s.add(fmt.Sprintf("nonce %d", i), d)
				}
				scan(c, "refused set proof", pr, s, nil, []*big.Int{I(1)})
				c.Eval("refused set proof")
			}
		}},
		{"ul", 16, 160, func(c *C) {
			u, l := int64(8+c.R.Intn(12)), int64(1+c.R.Intn(3))
			rec := c.InstallSeeded("setup")
			sys, err := zk.SetupUL(u, l)
			if err != nil {
				c.Fail("SetupUL(%d,%d): %v", u, l, err)
				return
			}
			keyLeak(c, "parameters of SetupUL", sys.P, rec.Scalars(ref.BnN))
			var prev map[string]string
			for t := 0; t < 2; t++ {
				x := I(0)
				var digits []*big.Int
				for i := int64(0); i < l; i++ {
					d := I(3 + int64(c.R.Intn(int(u)-5)))
					digits = append(digits, d)
					x.Add(x, new(big.Int).Mul(d, new(big.Int).Exp(I(u), I(i), nil)))
				}
				r := c.R.Below(ref.BnN)
				rec := c.InstallSeeded(fmt.Sprint("prove", t))
				pr, err := sys.Prove(new(big.Int).Set(x), new(big.Int).Set(r))
				if err != nil {
					c.Fail("ProveUL: %v", err)
					return
				}
				els := ccsLeak(c, "UL proof", pr, sys.P, x, r, rec.Scalars(ref.BnN), digits)
				if prev != nil {
					sameElements(c, "UL proof", prev, els)
				}
				prev = els
			}
		}},
		{"interval", 4, 30, func(c *C) {
			a := int64(100 + c.R.Intn(1000))
			b := a + 50 + int64(c.R.Intn(1000))
			iv := zk.NewInterval()
			rec := c.InstallSeeded("setup")
			if err := iv.Setup(a, b); err != nil {
				c.Fail("Setup(%d,%d): %v", a, b, err)
				return
			}
			keyLeak(c, "parameters of ccs08.Setup", iv.Params(), rec.Scalars(ref.BnN))
			x := new(big.Int).Add(I(a+3), c.R.Below(I(b-a-3)))
			r := c.R.Below(ref.BnN)
			rec = c.InstallSeeded("prove")
			if err := iv.Prove(new(big.Int).Set(x), new(big.Int).Set(r)); err != nil {
				c.Fail("Prove: %v", err)
				return
			}
			draws := rec.Scalars(ref.BnN)
			var prev map[string]string
			for i := 0; i < 2; i++ {
				els := ccsLeak(c, fmt.Sprint("half ", i), iv.Half(i), iv.UL().P, x, r, draws, nil)
				if prev != nil {
					sameElements(c, "interval proof", prev, els)
				}
				prev = els
			}
		}},
	},
}
