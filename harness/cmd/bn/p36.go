package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/ref"
)

type gfResult struct {
	Recv, Ret []*big.Int
	After     [][]*big.Int
	K         *big.Int
	Bool      bool
	Known     bool
}

// gfOp and gfPoints reach into package bn256; they are nil if its fields do not have the
// layout that the access file expects, and then only the public operations are watched.
var (
	gfOp     func(n int, op string, args [][]*big.Int, k *big.Int, alias int, dirty, recv []*big.Int) gfResult
	gfPoints func(a *bn256.G1, b *bn256.G2) (p, q []*big.Int, ok bool)
)

// Elements as polynomials in w (w^6 = i+9, tau = w^2, omega = w): the power of w that goes
// with each GF(p^2) coordinate.
var gfExps = map[int][]int{2: {0}, 6: {4, 2, 0}, 12: {5, 3, 1, 4, 2, 0}}

func toF12(v []*big.Int) ref.F12 {
	r := ref.F12One()
	r[0].SetInt64(0)
	for k, e := range gfExps[len(v)] {
		a, b := v[2*k], v[2*k+1] // a i + b, i = w^6 - 9
		r[e+6].Add(r[e+6], a)
		r[e].Add(r[e], b)
		r[e].Sub(r[e], new(big.Int).Mul(a, I(9)))
	}
	for k := range r {
		r[k].Mod(r[k], ref.BnP)
	}
	return r
}

func f12Lin(a, b ref.F12, s int64) ref.F12 { // a + s b
	r := ref.F12One()
	for k := range r {
		r[k].Mul(b[k], I(s))
		r[k].Add(r[k], a[k]).Mod(r[k], ref.BnP)
	}
	return r
}

func f12Scale(a ref.F12, s *big.Int) ref.F12 {
	r := ref.F12One()
	for k := range r {
		r[k].Mul(a[k], s)
		r[k].Mod(r[k], ref.BnP)
	}
	return r
}

func f12W(e int) ref.F12 {
	r := ref.F12One()
	r[0].SetInt64(0)
	r[e].SetInt64(1)
	return r
}

func f12Zero() ref.F12 { z := f12W(0); z[0].SetInt64(0); return z }

func vStr(v []*big.Int) string {
	s := make([]string, len(v))
	for i := range v {
		s[i] = v[i].String()
	}
	return "(" + strings.Join(s, ",") + ")"
}

func vEqual(a, b []*big.Int) bool { return vStr(a) == vStr(b) }

// coordinate draws one coordinate: unreduced ones are what sums and differences leave.
func coordinate(c *C, shape int) *big.Int {
	switch shape {
	case 1:
		return I(0)
	case 2:
		return I(int64(c.R.Intn(5)) - 2)
	case 3: // around multiples of p
		x := new(big.Int).Mul(ref.BnP, I(int64(c.R.Intn(7))-3))
		return x.Add(x, I(int64(c.R.Intn(3))-1))
	case 4: // unreduced, negative
		x := c.R.Bits(254 + c.R.Intn(20))
		if c.R.Bool() {
			x.Neg(x)
		}
		return x
	case 5: // long
		x := c.R.Bits(520)
		if c.R.Bool() {
			x.Neg(x)
		}
		return x
	case 6: // word patterns
		x := new(big.Int)
		for i := 0; i < 4; i++ {
			x.Lsh(x, 64)
			switch c.R.Intn(4) {
			case 0:
				x.Or(x, new(big.Int).SetUint64(^uint64(0)))
			case 1:
				x.Or(x, new(big.Int).SetUint64(1<<63))
			case 2:
				x.Or(x, new(big.Int).SetUint64(c.R.Uint64()))
			}
		}
		return x.Mod(x, ref.BnP)
	}
	return c.R.Below(ref.BnP)
}

func gfElement(c *C, n int) []*big.Int {
	v := make([]*big.Int, n)
	uniform := c.R.Intn(7)
	mode := c.R.Intn(6)
	for i := range v {
		switch {
		case mode == 0:
			v[i] = coordinate(c, c.R.Intn(7))
		case mode == 1 && c.R.Intn(3) > 0: // sparse
			v[i] = I(0)
		case mode == 2 && i < n-1: // in the base field
			v[i] = I(0)
		case mode == 3 && i < n-2 && n > 2: // in GF(p^2)
			v[i] = I(0)
		case mode == 4 && n == 12 && (i/6 == uniform%2): // half zero
			v[i] = I(0)
		default:
			v[i] = coordinate(c, uniform)
		}
	}
	if c.R.Intn(24) == 0 { // one
		for i := range v {
			v[i] = I(0)
		}
		v[n-1] = I(1)
	}
	if c.R.Intn(24) == 0 { // zero, perhaps as a multiple of p
		for i := range v {
			v[i] = new(big.Int).Mul(ref.BnP, I(int64(c.R.Intn(3))))
		}
	}
	return v
}

// related makes a second operand with a relation to the first, which special cases of
// addition chains and Karatsuba-like formulas are about.
func related(c *C, a []*big.Int) []*big.Int {
	b := make([]*big.Int, len(a))
	k := c.R.Intn(5)
	for i := range a {
		switch k {
		case 0: // equal
			b[i] = new(big.Int).Set(a[i])
		case 1: // opposite
			b[i] = new(big.Int).Neg(a[i])
		case 2: // conjugate
			b[i] = new(big.Int).Set(a[i])
			if len(a) == 12 && i < 6 || len(a) < 12 && i%2 == 0 {
				b[i].Neg(b[i])
			}
		case 3: // equal but for one coordinate
			b[i] = new(big.Int).Set(a[i])
			if i == 0 {
				b[i] = c.R.Below(ref.BnP)
			}
		default: // rotated
			b[i] = new(big.Int).Set(a[(i+2)%len(a)])
		}
	}
	return b
}

func gfExponent(c *C) *big.Int {
	switch c.R.Intn(6) {
	case 0:
		return I(int64(c.R.Intn(9)))
	case 1:
		return Pow2(c.R.Intn(200))
	case 2:
		return new(big.Int).Sub(Pow2(c.R.Intn(130)), I(1))
	case 3:
		return c.R.Bits(1 + c.R.Intn(130))
	case 4:
		return Bi("4965661367192848881")
	}
	return c.R.Bits(64)
}

type gfSpec struct {
	n      int
	op     string
	args   string // the sizes of operands: e element, 2 or 6 smaller element, k exponent, s integer
	nonzer bool   // only for elements other than zero
	want   func(a, b ref.F12, k *big.Int) ref.F12
}

func pw(k string) func(a, b ref.F12, _ *big.Int) ref.F12 {
	return func(a, b ref.F12, _ *big.Int) ref.F12 {
		e := new(big.Int).Set(ref.BnP)
		if k == "p2" {
			e.Mul(e, e)
		}
		return a.Pow(e)
	}
}

// conj6 negates the odd powers of w (the p^6-power map).
func conj6(a, b ref.F12, _ *big.Int) ref.F12 {
	r := ref.F12One()
	for k := range r {
		r[k].Set(a[k])
		if k%2 == 1 {
			r[k].Neg(r[k]).Mod(r[k], ref.BnP)
		}
	}
	return r
}

var gfSpecs = func() []gfSpec {
	id := func(a, b ref.F12, _ *big.Int) ref.F12 { return a }
	mul := func(a, b ref.F12, _ *big.Int) ref.F12 { return a.Mul(b) }
	var out []gfSpec
	for _, n := range []int{2, 6, 12} {
		out = append(out,
			gfSpec{n, "Set", "e", false, id},
			gfSpec{n, "SetZero", "", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return f12Zero() }},
			gfSpec{n, "SetOne", "", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return ref.F12One() }},
			gfSpec{n, "Minimal", "e", false, id},
			gfSpec{n, "IsZero", "e", false, nil},
			gfSpec{n, "IsOne", "e", false, nil},
			gfSpec{n, "Negative", "e", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return f12Lin(f12Zero(), a, -1) }},
			gfSpec{n, "Add", "ee", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return f12Lin(a, b, 1) }},
			gfSpec{n, "Sub", "ee", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return f12Lin(a, b, -1) }},
			gfSpec{n, "Mul", "ee", false, mul},
			gfSpec{n, "Mul", "ee", false, mul},
			gfSpec{n, "Square", "e", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return a.Mul(a) }},
			gfSpec{n, "Square", "e", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return a.Mul(a) }},
			gfSpec{n, "Invert", "e", true, nil},
			gfSpec{n, "Invert", "e", true, nil},
		)
		if n > 2 {
			out = append(out, gfSpec{n, "Frobenius", "e", false, pw("p")}, gfSpec{n, "FrobeniusP2", "e", false, pw("p2")})
		}
		if n < 12 {
			out = append(out, gfSpec{n, "Double", "e", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return f12Lin(a, a, 1) }})
		}
		if n != 6 {
			out = append(out, gfSpec{n, "Exp", "ek", false, func(a, b ref.F12, k *big.Int) ref.F12 { return a.Pow(k) }})
		}
	}
	out = append(out,
		gfSpec{2, "Conjugate", "e", false, pw("p")},
		gfSpec{2, "MulScalar", "es", false, func(a, b ref.F12, k *big.Int) ref.F12 { return f12Scale(a, k) }},
		gfSpec{2, "MulXi", "e", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return a.Mul(f12W(6)) }},
		gfSpec{6, "MulTau", "e", false, func(a, b ref.F12, _ *big.Int) ref.F12 { return a.Mul(f12W(2)) }},
		gfSpec{6, "MulScalar", "e2", false, mul},
		gfSpec{6, "MulGFP", "es", false, func(a, b ref.F12, k *big.Int) ref.F12 { return f12Scale(a, k) }},
		gfSpec{12, "Conjugate", "e", false, conj6},
		gfSpec{12, "MulScalar", "e6", false, mul},
	)
	return out
}()

// gfOnce runs one operation, as the receiver and the pool may be, and compares.
func gfOnce(c *C, s gfSpec) {
	var args [][]*big.Int
	var k *big.Int
	for i, ch := range s.args {
		switch ch {
		case 'e':
			if i > 0 && c.R.Intn(3) == 0 {
				args = append(args, related(c, args[0]))
			} else {
				args = append(args, gfElement(c, s.n))
			}
		case '2', '6':
			args = append(args, gfElement(c, int(ch-'0')))
		case 'k':
			k = gfExponent(c)
		case 's':
			k = coordinate(c, c.R.Intn(7))
		}
	}
	if s.nonzer && toF12(args[0]).Equal(f12Zero()) {
		c.Count("zero not inverted")
		return
	}
	minimal := s.op == "IsZero" || s.op == "IsOne"
	if minimal && s.n < 12 { // a predicate of reduced elements
		for i := range args[0] {
			args[0][i].Mod(args[0][i], ref.BnP)
		}
	}
	alias := 0
	if len(s.args) > 0 && c.R.Intn(3) == 0 {
		alias = 1
		if s.args == "ee" {
			alias = 1 + c.R.Intn(3)
			if alias == 3 {
				args[1] = args[0]
			}
		}
	}
	var dirty []*big.Int
	if c.R.Intn(3) > 0 {
		for i := 0; i < 40; i++ {
			dirty = append(dirty, coordinate(c, c.R.Intn(7)))
		}
	}
	recv := gfElement(c, s.n)
	desc := func() string {
		d := fmt.Sprintf("GF(p^%d).%s", s.n, s.op)
		for _, a := range args {
			d += vStr(a)
		}
		return fmt.Sprintf("%s k=%v alias=%d receiver=%s dirty pool=%v", d, k, alias, vStr(recv), len(dirty) > 0)
	}
	var r gfResult
	if p := Call(func() { r = gfOp(s.n, s.op, args, k, alias, dirty, recv) }); p != nil {
		c.Fail("%s: %v", desc(), p)
		return
	}
	if !r.Known {
		c.Count("operation not found: " + s.op)
		return
	}
	c.Count("operations compared")
	shape := ""
	for _, a := range args {
		z := 0
		for _, v := range a {
			switch {
			case v.Sign() == 0:
			case v.Sign() < 0:
				z |= 1
			case v.Cmp(ref.BnP) >= 0:
				z |= 2
			default:
				z |= 4
			}
		}
		shape += fmt.Sprint(z)
	}
	c.Eval(s.n, s.op, alias, shape, len(dirty) > 0)
	c.Sample("%s", desc())
	var a, b ref.F12
	if len(args) > 0 {
		a = toF12(args[0])
	}
	if len(args) > 1 {
		b = toF12(args[1])
	}
	switch {
	case minimal:
		want := a.Equal(f12Zero())
		if s.op == "IsOne" {
			want = a.Equal(ref.F12One())
		}
		if r.Bool != want {
			c.Fail("%s is %v", desc(), r.Bool)
		}
	case s.op == "Invert":
		if !a.Mul(toF12(r.Recv)).Equal(ref.F12One()) {
			c.Fail("%s = %s is not the inverse", desc(), vStr(r.Recv))
		}
	default:
		if want := s.want(a, b, k); !want.Equal(toF12(r.Recv)) {
			c.Fail("%s = %s is wrong", desc(), vStr(r.Recv))
		}
	}
	if s.op == "Minimal" {
		for _, v := range r.Recv {
			if v.Sign() < 0 || v.Cmp(ref.BnP) >= 0 {
				c.Fail("%s = %s is not reduced", desc(), vStr(r.Recv))
			}
		}
	} else if !minimal && !vEqual(r.Ret, r.Recv) {
		c.Fail("%s returns %s, not the receiver %s", desc(), vStr(r.Ret), vStr(r.Recv))
	}
	if k != nil && r.K.Cmp(k) != 0 {
		c.Fail("%s changed its integer operand", desc())
	}
	if s.op == "Minimal" {
		return
	}
	for i := range args {
		if alias&(i+1) == 0 && !(minimal && alias == 1) && !vEqual(r.After[i], args[i]) {
			c.Fail("%s changed operand %d to %s", desc(), i, vStr(r.After[i]))
		}
	}
}

var p36 = Prop{
	ID:    "P36",
	Level: "exploration",
	Rule:  "each operation of the tower of extension fields is compared with polynomial arithmetic modulo w^12 - 18 w^6 + 82",
	Assume: []string{
		"the model's polynomial arithmetic is right", "coordinates are integers that represent their residue modulo p",
	},
	Min: 40,
	Suites: []Suite{
		{"operations", 400, 12000, func(c *C) {
			if gfOp == nil {
				c.Count("tower not reachable")
				return
			}
			per := 60
			for i := 0; i < per; i++ {
				gfOnce(c, gfSpecs[(c.Idx*per+i)%len(gfSpecs)])
			}
		}},
		{"random operations", 200, 6000, func(c *C) {
			if gfOp == nil {
				c.Count("tower not reachable")
				return
			}
			for i := 0; i < 60; i++ {
				gfOnce(c, gfSpecs[c.R.Intn(len(gfSpecs))])
			}
		}},
		{"field laws on GT", 24, 200, gtLaws},
		{"coordinates of points", 16, 200, func(c *C) {
			if gfPoints == nil {
				c.Count("coordinates not reachable")
			}
			for _, g := range groups {
				k := c.R.Scalar(ref.BnN)
				x := element(c, g, k, c.R.Intn(nReps))
				if g.isZero(x) {
					continue
				}
				before := g.enc(Clone2(x))
				if gfPoints != nil {
					var p, q []*big.Int
					var ok bool
					if g.name() == "G1" {
						p, q, ok = gfPoints(x.(*bn256.G1), util.G2)
					} else {
						p, q, ok = gfPoints(util.G1, x.(*bn256.G2))
					}
					if !ok {
						c.Count("coordinates not found")
						continue
					}
					c.Eval("coordinates", g.name(), len(p))
					c.Count("operations compared")
					if g.name() == "G1" {
						zi := new(big.Int).ModInverse(p[2], ref.BnP)
						z2 := new(big.Int).Mul(zi, zi)
						X := new(big.Int).Mul(p[0], z2)
						Y := new(big.Int).Mul(p[1], z2)
						Y.Mul(Y, zi)
						got := g1Bytes(ref.Pt{X: X.Mod(X, ref.BnP), Y: Y.Mod(Y, ref.BnP)})
						if got != g.model(k) {
							c.Fail("G1.CurvePoints of base^%s is %s", k, vStr(p))
						}
					} else {
						f := func(i int) ref.F2 { return ref.NewF2(q[2*i+1], q[2*i]) }
						zi := f(2).Inv()
						z2 := zi.Mul(zi)
						if g2Bytes(ref.Pt2{X: f(0).Mul(z2), Y: f(1).Mul(z2).Mul(zi)}) != g.model(k) {
							c.Fail("G2.CurvePoints of base^%s is %s", k, vStr(q))
						}
					}
				}
				if g.enc(x) != before || before != g.model(k) {
					c.Fail("reading coordinates changed base^%s of %s", k, g.name())
				}
			}
			// SetZero makes the identity
			z := new(bn256.G1).ScalarBaseMult(c.R.Scalar(ref.BnN))
			z.SetZero()
			k := c.R.Scalar(ref.BnN)
			if !z.IsZero() || (g1{}).enc(new(bn256.G1).Add(z, new(bn256.G1).ScalarBaseMult(k))) != (g1{}).model(k) {
				c.Fail("G1.SetZero does not make the identity")
			}
			c.Eval("set zero")
		}},
	},
}

func Clone2(x any) any { return CloneAny(x) }

// gtLaws checks GF(p^12) through the public operations on the subgroup that pairings map to.
func gtLaws(c *C) {
	mk := func() (ref.F12, *bn256.GT) {
		x := gtEl(c, expo(c))
		return ref.F12FromBytes(x.Marshal()), x
	}
	for i := 0; i < 20; i++ {
		a, x := mk()
		b, y := mk()
		cmp := func(op string, got *bn256.GT, want ref.F12) {
			c.Eval("GT", op)
			c.Count("operations compared")
			if gtHex(got) != fmt.Sprintf("%x", want.Bytes()) {
				c.Fail("GT %s of %x and %x is %s", op, a.Bytes(), b.Bytes(), gtHex(got))
			}
		}
		k := gfExponent(c)
		p := Call(func() {
			cmp("Add", new(bn256.GT).Add(x, y), a.Mul(b))
			cmp("Add twice", new(bn256.GT).Add(x, x), a.Mul(a))
			cmp("Exp", new(bn256.GT).Exp(x, k), a.Pow(k))
			n := new(bn256.GT).Neg(x)
			cmp("Neg", new(bn256.GT).Add(n, x), ref.F12One())
		})
		if p != nil {
			c.Fail("GT operation on %x, %x: %v", a.Bytes(), b.Bytes(), p)
		}
	}
}
