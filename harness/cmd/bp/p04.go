package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"testing/iotest"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

func sortStrings(s []string) { sort.Strings(s) }

// subject is one proof that can be verified, with everything verification can reach.
type subject struct {
	name   string
	objs   []any // pointers
	verify func() zk.Outcome
	dup    func() *subject // the same value in fresh memory
	want   string
	snap   []map[string]string
}

func bpSubject(name string, p *proof) *subject {
	s := &subject{name: name, objs: []any{p}}
	s.verify = func() zk.Outcome { return verify(p) }
	s.dup = func() *subject { return bpSubject(name+" copy", Clone(p)) }
	return s
}

func genSubject(name string, p *generic) *subject {
	s := &subject{name: name, objs: []any{p}}
	s.verify = func() zk.Outcome { return verifyG(*p) }
	s.dup = func() *subject { return genSubject(name+" copy", Clone(p)) }
	return s
}

func ipSubject(name string, p *bulletproofs.InnerProductProof) *subject {
	s := &subject{name: name, objs: []any{p}}
	s.verify = func() zk.Outcome { return zk.Do(func() (bool, error) { return p.Verify() }) }
	s.dup = func() *subject { return ipSubject(name+" copy", Clone(p)) }
	return s
}

func setSubject(name string, sys *zk.Set, p any) *subject {
	s := &subject{name: name, objs: []any{p, sys.P}}
	s.verify = func() zk.Outcome { return zk.Do(func() (bool, error) { return sys.Verify(p) }) }
	s.dup = func() *subject { return setSubject(name+" copy", &zk.Set{P: CloneAny(sys.P)}, CloneAny(p)) }
	return s
}

func ulSubject(name string, sys *zk.UL, p any) *subject {
	s := &subject{name: name, objs: []any{p, sys.P}}
	s.verify = func() zk.Outcome { return zk.Do(func() (bool, error) { return sys.Verify(p) }) }
	s.dup = func() *subject { return ulSubject(name+" copy", &zk.UL{P: CloneAny(sys.P)}, CloneAny(p)) }
	return s
}

func ivSubject(name string, sys *zk.Interval) *subject {
	s := &subject{name: name, objs: []any{sys.V}}
	s.verify = func() zk.Outcome { return zk.Do(func() (bool, error) { return sys.Verify() }) }
	return s
}

func (s *subject) snapshot() {
	s.snap = nil
	for _, o := range s.objs {
		s.snap = append(s.snap, Snapshot(o))
	}
}

func (s *subject) diff() string {
	for i, o := range s.objs {
		if d := DiffSnap(s.snap[i], Snapshot(o)); d != "" {
			return d
		}
	}
	return ""
}

// invalidate makes one random change to a proof.
func invalidate(c *C, o any) {
	ls := Leaves(o)
	for try := 0; try < 50; try++ {
		l := ls[c.R.Intn(len(ls))]
		switch x := l.V.Interface().(type) {
		case *big.Int:
			if x != nil {
				x.Add(x, I(1))
				return
			}
		case *p256.P256:
			if x != nil {
				y := add(x, gmul(I(1)))
				x.X, x.Y = y.X, y.Y
				return
			}
		}
	}
}

// shuffle: which proof is verified first must not matter.
func shuffle(c *C, subs []*subject) {
	for i := len(subs) - 1; i > 0; i-- {
		j := c.R.Intn(i + 1)
		subs[i], subs[j] = subs[j], subs[i]
	}
}

func purity(c *C, subs []*subject) {
	rec := c.Install(0, ref.SecN)
	shuffle(c, subs)
	for _, s := range subs {
		s.snapshot()
		reads := rec.Reads
		o := s.verify()
		s.want = o.Kind()
		c.Eval("first", s.name, s.want)
		c.Count("verifications " + s.want)
		if rec.Reads != reads {
			c.Fail("verification of %s reads the random source", s.name)
		}
		if d := s.diff(); d != "" {
			c.Fail("verification of %s changes it: %s", s.name, d)
			s.snapshot()
		}
		if s.dup != nil {
			// the same value elsewhere in memory
			if o := s.dup().verify(); o.Kind() != s.want {
				c.Fail("%s: verification says %s, of a copy %s", s.name, s.want, o)
			}
		}
	}
	n := 3 * len(subs)
	if n > 20 {
		n = 20
	}
	for k := 0; k < n; k++ {
		s := subs[c.R.Intn(len(subs))]
		if k < len(subs) {
			s = subs[k]
		}
		o := s.verify()
		c.Eval("again", s.name, s.want)
		c.Count("repeated verifications")
		if o.Kind() != s.want {
			c.Fail("%s: verification said %s first, and says %s after others were verified", s.name, s.want, o)
		}
		if d := s.diff(); d != "" {
			c.Fail("repeated verification changes %s: %s", s.name, d)
			s.snapshot()
		}
	}
	if rec.Reads != 0 {
		c.Fail("verification reads the random source")
	}
}

var p04 = Prop{
	ID:   "P04",
	Rule: "pools of valid and invalid proofs of all five systems; each verification is bracketed by deep snapshots of everything it can reach and by the read counter of the random source, repeated in random order between the others, and compared with that of a copy in fresh memory. Distinct: (kind of proof, verdict, first or repeated).",
	Min:  15,
	Suites: []Suite{
		{"bulletproof", 48, 500, func(c *C) {
			var subs []*subject
			for k := 0; k < 3; k++ {
				n := sizes[c.R.Intn(5)]
				if c.Idx%8 == 7 {
					n = 32
				}
				p, ok := setup(c, n)
				if !ok {
					return
				}
				x := c.R.Bits(n)
				if k == 2 {
					x = outside(c.R, n, c.R.Intn(9))
				}
				randMode(c, c.R.Intn(8))
				pr, _ := tryProve(x, p)
				if pr == nil {
					continue
				}
				subs = append(subs, bpSubject(fmt.Sprintf("bulletproof N=%d %d", n, k), pr))
				bad := Clone(pr)
				invalidate(c, bad)
				subs = append(subs, bpSubject(fmt.Sprintf("altered bulletproof N=%d", n), bad))
				if k == 0 {
					var dec proof
					b, _ := json.Marshal(pr)
					if json.Unmarshal(b, &dec) == nil {
						subs = append(subs, bpSubject(fmt.Sprintf("decoded bulletproof N=%d", n), &dec))
					}
					shared := *pr // shares all points with pr
					subs = append(subs, bpSubject(fmt.Sprintf("shared bulletproof N=%d", n), &shared))
				}
			}
			purity(c, subs)
		}},
		{"long", 8, 48, func(c *C) { longHistory(c) }},
		{"generic", 8, 100, func(c *C) {
			a, b := bounds(c.R, c.Idx)
			g, err := zk.SetupGeneric(a, b)
			if err != nil {
				c.Fail("SetupGeneric(%d,%d): %v", a, b, err)
				return
			}
			var subs []*subject
			for k := 0; k < 2; k++ {
				x := bi(a)
				if k == 1 {
					x = new(big.Int).Add(bi(b), I(5))
				}
				pr, err := g.Prove(x)
				if err != nil {
					continue
				}
				subs = append(subs, genSubject(fmt.Sprintf("generic %d", k), &pr))
				if k == 0 {
					bad := Clone(&pr)
					invalidate(c, bad)
					subs = append(subs, genSubject("altered generic", bad))
				}
			}
			purity(c, subs)
		}},
		{"inner product", 24, 200, func(c *C) {
			var subs []*subject
			for k := 0; k < 2; k++ {
				n := 1 << c.R.Intn(5)
				pr, ok := ipHonest(c, n)
				if !ok {
					return
				}
				subs = append(subs, ipSubject(fmt.Sprintf("argument n=%d", n), pr))
				bad := Clone(pr)
				invalidate(c, bad)
				subs = append(subs, ipSubject(fmt.Sprintf("altered argument n=%d", n), bad))
			}
			purity(c, subs)
		}},
		{"set", 12, 120, func(c *C) {
			s := []int64{c.R.Int64(), c.R.Int64(), 0}
			sys, err := zk.SetupSet(s)
			if err != nil {
				c.Fail("SetupSet: %v", err)
				return
			}
			var subs []*subject
			for k := 0; k < 2; k++ {
				pr, err := sys.Prove(s[k], c.R.Below(ref.BnN))
				if err != nil {
					c.Fail("ProveSet: %v", err)
					return
				}
				subs = append(subs, setSubject(fmt.Sprintf("set proof %d", k), sys, pr))
				bad := CloneAny(pr)
				invalidate(c, bad)
				subs = append(subs, setSubject("altered set proof", sys, bad))
			}
			purity(c, subs)
		}},
		{"UL", 8, 80, func(c *C) {
			u, l := int64(2+c.R.Intn(3)), int64(1+c.R.Intn(3))
			sys, err := zk.SetupUL(u, l)
			if err != nil {
				c.Fail("SetupUL: %v", err)
				return
			}
			pr, err := sys.Prove(I(int64(c.R.Intn(2))), c.R.Below(ref.BnN))
			if err != nil {
				c.Fail("ProveUL: %v", err)
				return
			}
			out, _ := sys.Prove(I(1000), c.R.Below(ref.BnN))
			bad := CloneAny(pr)
			invalidate(c, bad)
			subs := []*subject{ulSubject(fmt.Sprintf("UL proof l=%d", l), sys, pr), ulSubject("altered UL proof", sys, bad)}
			if out != nil {
				subs = append(subs, ulSubject("out of range UL proof", sys, out))
			}
			purity(c, subs)
		}},
		{"interval", 4, 30, func(c *C) {
			a := int64(c.R.Intn(20) - 10)
			b := a + 30
			var subs []*subject
			for k, x := range []*big.Int{I(a), I(b)} {
				iv := zk.NewInterval()
				if err := iv.Setup(a, b); err != nil {
					c.Fail("Setup(%d,%d): %v", a, b, err)
					return
				}
				if err := iv.Prove(x, c.R.Below(ref.BnN)); err != nil {
					continue
				}
				subs = append(subs, ivSubject(fmt.Sprintf("interval proof %d", k), iv))
			}
			purity(c, subs)
		}},
	},
}

// longHistory verifies a few small proofs, valid and invalid, many times.
func longHistory(c *C) {
	var subs []*subject
	rounds := 500
	if c.Idx%4 == 3 {
		rounds = 40
		s := []int64{3, 1 << 40}
		sys, err := zk.SetupSet(s)
		if err != nil {
			c.Fail("SetupSet: %v", err)
			return
		}
		pr, err := sys.Prove(s[0], c.R.Below(ref.BnN))
		if err != nil {
			c.Fail("ProveSet: %v", err)
			return
		}
		bad := CloneAny(pr)
		invalidate(c, bad)
		subs = append(subs, setSubject("set proof", sys, pr), setSubject("altered set proof", sys, bad))
	} else {
		for k := 0; k < 2; k++ {
			n := 1 + k*(c.Idx%2)
			pr := honest(c, n)
			if pr == nil {
				return
			}
			bad := Clone(pr)
			invalidate(c, bad)
			subs = append(subs, bpSubject(fmt.Sprintf("bulletproof N=%d %d", n, k), pr), bpSubject(fmt.Sprintf("altered bulletproof N=%d %d", n, k), bad))
		}
	}
	shuffle(c, subs)
	for _, s := range subs {
		s.snapshot()
		s.want = s.verify().Kind()
	}
	rec := c.Install(0, ref.SecN)
	for k := 0; k < rounds; k++ {
		s := subs[c.R.Intn(len(subs))]
		if k%50 > 25 { // runs of the same proof
			s = subs[k/50%len(subs)]
		}
		if o := s.verify(); o.Kind() != s.want {
			c.Fail("%s: verification said %s first, and says %s after %d verifications", s.name, s.want, o, k)
			return
		}
		c.Count("repeated verifications")
	}
	for _, s := range subs {
		c.Eval("long", s.name, s.want)
		if d := s.diff(); d != "" {
			c.Fail("many verifications change %s: %s", s.name, d)
		}
	}
	if rec.Reads != 0 {
		c.Fail("verification reads the random source")
	}
}

// ipHonest makes a valid inner-product argument.
func ipHonest(c *C, n int) (*bulletproofs.InnerProductProof, bool) {
	var a, b []*big.Int
	for i := 0; i < n; i++ {
		a, b = append(a, c.R.Below(ref.SecN)), append(b, c.R.Below(ref.SecN))
	}
	prm, err := bulletproofs.VerifSetupInnerProduct(nil, nil, nil, ref.InnerProduct(a, b, ref.SecN), int64(n))
	if err != nil {
		c.Fail("setupInnerProduct: %v", err)
		return nil, false
	}
	P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, a, b)
	pr, err := bulletproofs.VerifProveInnerProduct(a, b, P, prm)
	if err != nil {
		c.Fail("proveInnerProduct: %v", err)
		return nil, false
	}
	return &pr, true
}

// transport encodes and decodes x (a pointer to a T).
func transport[T any](c *C, what string, x *T, how int) (*T, []byte) {
	var b []byte
	var err error
	e := Call(func() {
		switch how % 3 {
		case 0:
			b, err = json.Marshal(x)
		case 1:
			b, err = json.Marshal(*x)
		default:
			b, err = json.MarshalIndent(x, " ", "\t")
		}
	})
	if e != nil || err != nil {
		c.Fail("encoding %s: %v %v", what, err, e)
		return nil, nil
	}
	y := new(T)
	if e := Call(func() { err = json.Unmarshal(b, y) }); e != nil || err != nil {
		c.Fail("decoding %s: %v %v", what, err, e)
		return nil, nil
	}
	if d := DiffSnap(Snapshot(x), Snapshot(y)); d != "" {
		c.Fail("%s changed in transport: %s", what, d)
	}
	if fmt.Sprintf("%x", b) != "" {
		var b2 []byte
		switch how % 3 {
		case 0:
			b2, _ = json.Marshal(y)
		case 1:
			b2, _ = json.Marshal(*y)
		default:
			b2, _ = json.MarshalIndent(y, " ", "\t")
		}
		if string(b) != string(b2) {
			c.Fail("encoding %s again gives other bytes", what)
		}
	}
	c.Count("transports compared")
	return y, b
}

var p05 = Prop{
	ID:   "P05",
	Rule: "valid, out-of-range and altered proofs (scalars of every byte length, negative, huge; points at infinity), of every N and of generic ranges, and parameters, encoded by value, by pointer and indented, decoded, compared leaf by leaf, encoded again, verified before and after, and transported twice; messages of several proofs, by value, pointer, list and map; decoding into variables that held another proof. Distinct: (kind, N, alteration, verdict).",
	Min:  30,
	Suites: []Suite{
		{"bulletproof", 300, 4000, func(c *C) {
			n := sizes[c.Idx%6]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			mode := randMode(c, c.Idx/6)
			x := c.R.Bits(n)
			if c.R.Intn(4) == 0 {
				x = outside(c.R, n, c.R.Intn(20))
			}
			pr, _ := tryProve(x, p)
			if pr == nil {
				return
			}
			kind := "as made"
			if c.Idx/6%3 == 1 {
				kind = alterForTransport(c, pr)
			}
			before := verify(pr)
			y, _ := transport(c, fmt.Sprintf("a bulletproof (N=%d, %s, %s)", n, mode, kind), pr, c.Idx)
			if y == nil {
				return
			}
			after := verify(y)
			c.Eval("bulletproof", n, kind, mode, before.Kind())
			if before.Kind() != after.Kind() {
				c.Fail("N=%d %s: verification says %s before and %s after transport", n, kind, before, after)
			}
			z, _ := transport(c, "a decoded bulletproof", y, c.Idx+1)
			if z != nil && verify(z).Kind() != before.Kind() {
				c.Fail("N=%d %s: verification differs after two transports", n, kind)
			}
			c.Sample("N=%d secret %s %s: %s", n, x, kind, before)
		}},
		{"scalars", 1000, 12000, func(c *C) {
			// transport only, without proving: every scalar length
			n := sizes[c.Idx%5]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			pr := &proof{Params: p}
			for _, l := range Leaves(pr) {
				_ = l
			}
			pr.V, pr.A, pr.S, pr.T1, pr.T2, pr.Commit = pt(c), pt(c), inf(), pt(c), gmul(c.R.Bits(3)), pt(c)
			pr.Taux, pr.Mu, pr.Tprime = c.R.Scalar(ref.SecN), c.R.Scalar(ref.SecN), c.R.Scalar(ref.SecN)
			ip := &pr.InnerProductProof
			ip.A, ip.B, ip.U, ip.N = c.R.Scalar(ref.SecN), c.R.Bits(8*c.R.Intn(40)), pt(c), c.R.Int64()
			for i := 1; i < n; i *= 2 {
				ip.Ls, ip.Rs = append(ip.Ls, pt(c)), append(ip.Rs, inf())
			}
			ip.Params = p.InnerProductParams
			ip.Params.Cc = c.R.Scalar(ref.SecN)
			c.Eval("scalars", n, ip.B.BitLen()/8, ip.A.Sign(), pr.Mu.Sign())
			transport(c, "a synthetic bulletproof", pr, c.Idx)
		}},
		{"generic", 16, 200, func(c *C) {
			a, b := bounds(c.R, c.Idx)
			g, err := zk.SetupGeneric(a, b)
			if err != nil {
				c.Fail("SetupGeneric(%d,%d): %v", a, b, err)
				return
			}
			x := bi(a)
			if c.Idx%4 == 3 {
				x = bi(b)
			}
			pr, err := g.Prove(x)
			if err != nil {
				return
			}
			kind := "as made"
			if c.Idx%3 == 2 {
				kind = alterForTransport(c, &pr.P2)
			}
			before := verifyG(pr)
			y, _ := transport(c, fmt.Sprintf("a proof for [%d,%d)", a, b), &pr, c.Idx)
			if y == nil {
				return
			}
			after := verifyG(*y)
			c.Eval("generic", c.Idx%10, kind, before.Kind())
			if before.Kind() != after.Kind() {
				c.Fail("[%d,%d) %s: verification says %s before and %s after transport", a, b, kind, before, after)
			}
		}},
		{"reused", 36, 300, func(c *C) {
			// messages that hold several proofs, and variables that held another proof before
			n, m := sizes[c.R.Intn(5)], sizes[c.R.Intn(5)]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			q, ok := setup(c, m)
			if !ok {
				return
			}
			one, two := prove(c, c.R.Bits(n), p), prove(c, c.R.Bits(m), q)
			if one == nil || two == nil {
				return
			}
			if c.R.Intn(3) == 0 {
				alterForTransport(c, two)
			}
			want := verify(two).Kind()
			b1, e1 := json.Marshal(one)
			b2, e2 := json.Marshal(two)
			if e1 != nil || e2 != nil {
				c.Fail("encoding: %v %v", e1, e2)
				return
			}
			w := new(proof)
			if err := json.Unmarshal(b1, w); err != nil {
				c.Fail("decoding: %v", err)
				return
			}
			if c.R.Intn(2) == 0 {
				verify(w)
			}
			if err := json.Unmarshal(b2, w); err != nil {
				c.Fail("decoding into a used variable: %v", err)
				return
			}
			if d := DiffSnap(Snapshot(two), Snapshot(w)); d != "" {
				c.Fail("a proof (N=%d) decoded into a variable that held one for N=%d differs: %s", m, n, d)
			}
			if got := verify(w).Kind(); got != want {
				c.Fail("a proof (N=%d) decoded into a variable that held one for N=%d: verification says %s, not %s", m, n, got, want)
			}
			type message struct {
				Value   proof
				Pointer *proof
				List    []proof
				Named   map[string]proof
				Setup   params
			}
			msg := message{*one, two, []proof{*two, *one, *two}, map[string]proof{"one": *one, "two": *two}, q}
			b, err := json.Marshal(msg)
			if err != nil {
				c.Fail("encoding a message of several proofs: %v", err)
				return
			}
			var got message
			if c.Idx%2 == 0 {
				err = json.Unmarshal(b, &got)
			} else {
				err = json.NewDecoder(iotest.OneByteReader(bytes.NewReader(b))).Decode(&got)
			}
			if err != nil {
				c.Fail("decoding a message of several proofs: %v", err)
				return
			}
			cmp := func(what string, x, y any) {
				if d := DiffSnap(Snapshot(x), Snapshot(y)); d != "" {
					c.Fail("%s of a message of several proofs changed in transport: %s", what, d)
				}
			}
			cmp("the value", one, &got.Value)
			cmp("the pointer", two, got.Pointer)
			cmp("the parameters", &q, &got.Setup)
			if len(got.List) != 3 || len(got.Named) != 2 {
				c.Fail("a message of several proofs lost some")
				return
			}
			for i, x := range []*proof{two, one, two} {
				cmp(fmt.Sprintf("element %d", i), x, &got.List[i])
			}
			g1, g2 := got.Named["one"], got.Named["two"]
			cmp("a named proof", one, &g1)
			cmp("a named proof", two, &g2)
			for _, y := range []*proof{got.Pointer, &got.List[0], &got.List[2], &g2} {
				if k := verify(y).Kind(); k != want {
					c.Fail("a proof of a message of several: verification says %s, not %s", k, want)
				}
			}
			c.Eval("reused", n, m, want)
			c.Count("messages of several proofs")
		}},
		{"parameters", 12, 60, func(c *C) {
			n := sizes[c.Idx%6]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			q, _ := transport(c, "parameters", &p, c.Idx)
			if q == nil {
				return
			}
			x := c.R.Bits(n)
			c.Eval("params", n)
			if pr := prove(c, x, *q); pr != nil {
				if o := verify(pr); !o.Accepted() {
					c.Fail("a proof made with transported parameters (N=%d) does not verify: %s", n, o)
				}
			}
		}},
	},
}

// alterForTransport makes a proof unusual, often invalid.
func alterForTransport(c *C, p *proof) string {
	sc := []**big.Int{&p.Taux, &p.Mu, &p.Tprime, &p.InnerProductProof.A, &p.InnerProductProof.B}
	ps := []**p256.P256{&p.V, &p.A, &p.S, &p.T1, &p.T2, &p.Commit, &p.InnerProductProof.U}
	if c.R.Intn(3) == 0 {
		// no point of the curve: transport must not repair it
		p := ps[c.R.Intn(len(ps))]
		x, y := new(big.Int), new(big.Int)
		if PStr(*p) != "inf" {
			x.Set((*p).X)
			y.Set((*p).Y)
		}
		k := c.R.Intn(9)
		switch k {
		case 0:
			y.Add(y, I(1))
		case 1:
			y.Add(y, I(2))
		case 2:
			y.Sub(y, I(2))
		case 3:
			x.Add(x, I(1))
		case 4:
			y = c.R.Below(ref.SecP)
		case 5:
			x, y = y, x
		case 6: // not reduced
			x.Add(x, ref.SecP)
		case 7:
			y.Add(y, ref.SecP)
		default:
			y.Neg(y)
		}
		*p = &p256.P256{X: x, Y: y}
		return fmt.Sprint("off curve ", k)
	}
	switch c.R.Intn(6) {
	case 0:
		*sc[c.R.Intn(len(sc))] = new(big.Int).Neg(c.R.Below(ref.SecN))
		return "negative scalar"
	case 1:
		*sc[c.R.Intn(len(sc))] = c.R.Bits(4000)
		return "huge scalar"
	case 2:
		s := sc[c.R.Intn(len(sc))]
		*s = new(big.Int).Add(*s, ref.SecN)
		return "congruent scalar"
	case 3:
		*ps[c.R.Intn(len(ps))] = inf()
		return "infinity"
	case 4:
		*sc[c.R.Intn(len(sc))] = c.R.Bits(8 * c.R.Intn(32))
		return "short scalar"
	}
	*ps[c.R.Intn(len(ps))] = pt(c)
	return "other point"
}
