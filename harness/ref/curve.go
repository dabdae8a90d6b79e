// Package ref holds slow, independent models of the mathematics that the code under test
// implements: they share no code with it and use other formulas (affine coordinates, a
// different basis of GF(p^12), schoolbook algorithms).
package ref

import "math/big"

func hexInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }
func decInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }

var (
	// secp256k1 (SEC 2).
	SecP  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	SecN  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	SecGx = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	SecGy = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
	// BetaP is a cube root of unity modulo SecP, and LambdaN the matching one modulo SecN.
	BetaP   = hexInt("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE")
	LambdaN = hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")

	// alt_bn128.
	BnP  = decInt("21888242871839275222246405745257275088696311157297823662689037894645226208583")
	BnN  = decInt("21888242871839275222246405745257275088548364400416034343698204186575808495617")
	BnG1 = Pt{X: big.NewInt(1), Y: new(big.Int).Sub(BnP, big.NewInt(2))}
)

// Curve is y^2 = x^3 + B over GF(P).
type Curve struct {
	P, B *big.Int
}

var (
	Secp = &Curve{SecP, big.NewInt(7)}
	Bn   = &Curve{BnP, big.NewInt(3)}
)

// Pt is an affine point, or infinity.
type Pt struct {
	X, Y *big.Int
	Inf  bool
}

var SecG = Pt{X: SecGx, Y: SecGy}

func (a Pt) Equal(b Pt) bool {
	if a.Inf || b.Inf {
		return a.Inf && b.Inf
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

func (a Pt) String() string {
	if a.Inf {
		return "inf"
	}
	return "(" + a.X.String() + "," + a.Y.String() + ")"
}

func (c *Curve) On(a Pt) bool {
	if a.Inf {
		return true
	}
	y2 := new(big.Int).Exp(a.Y, big.NewInt(2), c.P)
	x3 := new(big.Int).Exp(a.X, big.NewInt(3), c.P)
	x3.Add(x3, c.B).Mod(x3, c.P)
	return y2.Cmp(x3) == 0
}

func (c *Curve) Neg(a Pt) Pt {
	if a.Inf {
		return a
	}
	y := new(big.Int).Neg(a.Y)
	return Pt{X: a.X, Y: y.Mod(y, c.P)}
}

func (c *Curve) Add(a, b Pt) Pt {
	if a.Inf {
		return b
	}
	if b.Inf {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		s := new(big.Int).Add(a.Y, b.Y)
		if s.Mod(s, c.P).Sign() == 0 {
			return Pt{Inf: true}
		}
		l = new(big.Int).Mul(a.X, a.X)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(a.Y, 1)
		l.Mul(l, d.ModInverse(d, c.P))
	} else {
		l = new(big.Int).Sub(b.Y, a.Y)
		d := new(big.Int).Sub(b.X, a.X)
		d.Mod(d, c.P)
		l.Mul(l, d.ModInverse(d, c.P))
	}
	l.Mod(l, c.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.X).Sub(x, b.X).Mod(x, c.P)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, l).Sub(y, a.Y).Mod(y, c.P)
	return Pt{X: x, Y: y}
}

// Mul computes k times a for every integer k, without using the order of the group.
func (c *Curve) Mul(a Pt, k *big.Int) Pt {
	if k.Sign() < 0 {
		return c.Mul(c.Neg(a), new(big.Int).Neg(k))
	}
	r := Pt{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.Add(r, r)
		if k.Bit(i) == 1 {
			r = c.Add(r, a)
		}
	}
	return r
}

// Lift returns a point with the given x coordinate, if there is one.
func (c *Curve) Lift(x *big.Int) (Pt, bool) {
	x = new(big.Int).Mod(x, c.P)
	f := new(big.Int).Exp(x, big.NewInt(3), c.P)
	f.Add(f, c.B).Mod(f, c.P)
	y := new(big.Int).ModSqrt(f, c.P)
	if y == nil {
		return Pt{}, false
	}
	return Pt{X: x, Y: y}, true
}

// F2 is a + b*i with i^2 = -1 over GF(BnP).
type F2 struct{ A, B *big.Int }

func f2(a, b *big.Int) F2 {
	return F2{new(big.Int).Mod(a, BnP), new(big.Int).Mod(b, BnP)}
}
func (x F2) Add(y F2) F2 { return f2(new(big.Int).Add(x.A, y.A), new(big.Int).Add(x.B, y.B)) }
func (x F2) Sub(y F2) F2 { return f2(new(big.Int).Sub(x.A, y.A), new(big.Int).Sub(x.B, y.B)) }
func (x F2) Mul(y F2) F2 {
	ac := new(big.Int).Mul(x.A, y.A)
	bd := new(big.Int).Mul(x.B, y.B)
	ad := new(big.Int).Mul(x.A, y.B)
	bc := new(big.Int).Mul(x.B, y.A)
	return f2(ac.Sub(ac, bd), ad.Add(ad, bc))
}
func (x F2) Inv() F2 {
	n := new(big.Int).Add(new(big.Int).Mul(x.A, x.A), new(big.Int).Mul(x.B, x.B))
	n.ModInverse(n.Mod(n, BnP), BnP)
	return f2(new(big.Int).Mul(x.A, n), new(big.Int).Mul(new(big.Int).Neg(x.B), n))
}
func (x F2) IsZero() bool    { return x.A.Sign() == 0 && x.B.Sign() == 0 }
func (x F2) Equal(y F2) bool { return x.A.Cmp(y.A) == 0 && x.B.Cmp(y.B) == 0 }
func F2Int(n int64) F2       { return f2(big.NewInt(n), new(big.Int)) }
func NewF2(a, b *big.Int) F2 { return f2(a, b) }
func (x F2) Neg() F2         { return F2Int(0).Sub(x) }

// Pt2 is an affine point of the twist y^2 = x^3 + 3/(9+i).
type Pt2 struct {
	X, Y F2
	Inf  bool
}

var TwistB = F2Int(3).Mul(f2(big.NewInt(9), big.NewInt(1)).Inv())

var BnG2 = Pt2{
	X: F2{decInt("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
		decInt("11559732032986387107991004021392285783925812861821192530917403151452391805634")},
	Y: F2{decInt("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
		decInt("4082367875863433681332203403145435568316851327593401208105741076214120093531")},
}

func (a Pt2) Equal(b Pt2) bool {
	if a.Inf || b.Inf {
		return a.Inf && b.Inf
	}
	return a.X.Equal(b.X) && a.Y.Equal(b.Y)
}
func (a Pt2) On() bool {
	return a.Inf || a.Y.Mul(a.Y).Equal(a.X.Mul(a.X).Mul(a.X).Add(TwistB))
}
func (a Pt2) Neg() Pt2 {
	if a.Inf {
		return a
	}
	return Pt2{X: a.X, Y: a.Y.Neg()}
}
func (a Pt2) Add(b Pt2) Pt2 {
	if a.Inf {
		return b
	}
	if b.Inf {
		return a
	}
	var l F2
	if a.X.Equal(b.X) {
		if a.Y.Add(b.Y).IsZero() {
			return Pt2{Inf: true}
		}
		l = a.X.Mul(a.X).Mul(F2Int(3)).Mul(a.Y.Add(a.Y).Inv())
	} else {
		l = b.Y.Sub(a.Y).Mul(b.X.Sub(a.X).Inv())
	}
	x := l.Mul(l).Sub(a.X).Sub(b.X)
	return Pt2{X: x, Y: l.Mul(a.X.Sub(x)).Sub(a.Y)}
}
func (a Pt2) Mul(k *big.Int) Pt2 {
	if k.Sign() < 0 {
		return a.Neg().Mul(new(big.Int).Neg(k))
	}
	r := Pt2{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(a)
		}
	}
	return r
}

// Sqrt returns a square root in GF(p^2), if there is one (p = 3 mod 4).
func (x F2) Sqrt() (F2, bool) {
	if x.IsZero() {
		return x, true
	}
	// |x| = sqrt(a^2+b^2); sqrt = s + b/(2s) i with s^2 = (a+-|x|)/2
	n := new(big.Int).Add(new(big.Int).Mul(x.A, x.A), new(big.Int).Mul(x.B, x.B))
	n.Mod(n, BnP)
	m := new(big.Int).ModSqrt(n, BnP)
	if m == nil {
		return F2{}, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), BnP)
	for _, sgn := range []int64{1, -1} {
		s2 := new(big.Int).Add(x.A, new(big.Int).Mul(m, big.NewInt(sgn)))
		s2.Mul(s2, half).Mod(s2, BnP)
		s := new(big.Int).ModSqrt(s2, BnP)
		if s == nil {
			continue
		}
		var r F2
		if s.Sign() == 0 {
			// x is a negative "real" number: its root is purely imaginary
			t := new(big.Int).ModSqrt(new(big.Int).Mod(new(big.Int).Neg(x.A), BnP), BnP)
			if t == nil {
				continue
			}
			r = f2(new(big.Int), t)
		} else {
			b := new(big.Int).ModInverse(new(big.Int).Lsh(s, 1), BnP)
			r = f2(s, b.Mul(b, x.B))
		}
		if r.Mul(r).Equal(x) {
			return r, true
		}
	}
	return F2{}, false
}

// LiftTwist returns a point of the twist with the given x coordinate, which is in general
// not in the subgroup of order BnN.
func LiftTwist(x F2) (Pt2, bool) {
	y, ok := x.Mul(x).Mul(x).Add(TwistB).Sqrt()
	return Pt2{X: x, Y: y}, ok
}

// F12 is a polynomial in w modulo w^12 - 18 w^6 + 82, where i = w^6 - 9.
type F12 [12]*big.Int

func F12One() F12 {
	var r F12
	for k := range r {
		r[k] = new(big.Int)
	}
	r[0].SetInt64(1)
	return r
}

func (x F12) Mul(y F12) F12 {
	var t [23]*big.Int
	for k := range t {
		t[k] = new(big.Int)
	}
	m := new(big.Int)
	for i := 0; i < 12; i++ {
		if x[i].Sign() == 0 {
			continue
		}
		for j := 0; j < 12; j++ {
			t[i+j].Add(t[i+j], m.Mul(x[i], y[j]))
		}
	}
	for k := 22; k >= 12; k-- {
		t[k].Mod(t[k], BnP)
		t[k-6].Add(t[k-6], m.Mul(t[k], big.NewInt(18)))
		t[k-12].Sub(t[k-12], m.Mul(t[k], big.NewInt(82)))
	}
	var r F12
	for k := range r {
		r[k] = t[k].Mod(t[k], BnP)
	}
	return r
}

func (x F12) Equal(y F12) bool {
	for k := range x {
		if x[k].Cmp(y[k]) != 0 {
			return false
		}
	}
	return true
}

// Pow computes x^k for k >= 0.
func (x F12) Pow(k *big.Int) F12 {
	r := F12One()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if k.Bit(i) == 1 {
			r = r.Mul(x)
		}
	}
	return r
}

// F12FromBytes reads the serialization of a GT element: the coordinates of
// ((x.x,x.y),(y.x,y.y),(z.x,z.y)) w + (...) with a GF(p^2) element x*i + y.
func F12FromBytes(m []byte) F12 {
	r := F12One()
	r[0].SetInt64(0)
	exps := []int{5, 3, 1, 4, 2, 0} // w*w^4, w*w^2, w, w^4, w^2, 1
	for k, e := range exps {
		a := new(big.Int).SetBytes(m[64*k : 64*k+32])
		b := new(big.Int).SetBytes(m[64*k+32 : 64*k+64])
		// (a i + b) w^e = a w^(e+6) + (b - 9a) w^e
		r[e+6].Add(r[e+6], a)
		r[e].Add(r[e], b)
		r[e].Sub(r[e], new(big.Int).Mul(a, big.NewInt(9)))
	}
	for k := range r {
		r[k].Mod(r[k], BnP)
	}
	return r
}

// Bytes is the inverse of F12FromBytes.
func (x F12) Bytes() []byte {
	out := make([]byte, 384)
	exps := []int{5, 3, 1, 4, 2, 0}
	for k, e := range exps {
		a := new(big.Int).Mod(x[e+6], BnP)
		b := new(big.Int).Add(x[e], new(big.Int).Mul(x[e+6], big.NewInt(9)))
		b.Mod(b, BnP)
		a.FillBytes(out[64*k : 64*k+32])
		b.FillBytes(out[64*k+32 : 64*k+64])
	}
	return out
}

// Pair evaluates the optimal ate pairing of alt_bn128 by affine line functions on the
// twist, with a schoolbook final exponentiation.
func Pair(p Pt, q Pt2) F12 {
	f := F12One()
	if p.Inf || q.Inf {
		return f
	}
	u := decInt("4965661367192848881")
	n := new(big.Int).Mul(u, big.NewInt(6))
	n.Add(n, big.NewInt(2))
	t := q
	for i := n.BitLen() - 2; i >= 0; i-- {
		f = f.Mul(f)
		f = f.Mul(line(t, t, p))
		t = t.Add(t)
		if n.Bit(i) == 1 {
			f = f.Mul(line(t, q, p))
			t = t.Add(q)
		}
	}
	q1 := frob(q)
	q2 := frob(q1).Neg()
	f = f.Mul(line(t, q1, p))
	t = t.Add(q1)
	f = f.Mul(line(t, q2, p))
	e := new(big.Int).Exp(BnP, big.NewInt(12), nil)
	e.Sub(e, big.NewInt(1))
	e.Div(e, BnN)
	return f.Pow(e)
}

// frob is the Frobenius endomorphism, carried over to the twist.
func frob(q Pt2) Pt2 {
	xi := f2(big.NewInt(9), big.NewInt(1))
	e := new(big.Int).Sub(BnP, big.NewInt(1))
	conj := func(x F2) F2 { return f2(x.A, new(big.Int).Neg(x.B)) }
	return Pt2{
		X: conj(q.X).Mul(f2Pow(xi, new(big.Int).Div(e, big.NewInt(3)))),
		Y: conj(q.Y).Mul(f2Pow(xi, new(big.Int).Div(e, big.NewInt(2)))),
	}
}

func f2Pow(x F2, k *big.Int) F2 {
	r := F2Int(1)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if k.Bit(i) == 1 {
			r = r.Mul(x)
		}
	}
	return r
}

// line is the line through a and b (points (x w^2, y w^3) of the curve), evaluated at p.
func line(a, b Pt2, p Pt) F12 {
	r := F12One()
	r[0].SetInt64(0)
	put := func(e int, c F2) { // c w^e, with i = w^6 - 9
		r[e+6].Add(r[e+6], c.B)
		r[e].Add(r[e], c.A)
		r[e].Sub(r[e], new(big.Int).Mul(c.B, big.NewInt(9)))
	}
	var l F2
	if a.Equal(b) {
		l = a.X.Mul(a.X).Mul(F2Int(3)).Mul(a.Y.Add(a.Y).Inv())
	} else if a.X.Equal(b.X) {
		put(0, f2(p.X, new(big.Int)))
		put(2, a.X.Neg())
		for k := range r {
			r[k].Mod(r[k], BnP)
		}
		return r
	} else {
		l = b.Y.Sub(a.Y).Mul(b.X.Sub(a.X).Inv())
	}
	// y_p - l w x_p + (l x_a - y_a) w^3
	put(0, f2(p.Y, new(big.Int)))
	put(1, l.Mul(f2(p.X, new(big.Int))).Neg())
	put(3, l.Mul(a.X).Sub(a.Y))
	for k := range r {
		r[k].Mod(r[k], BnP)
	}
	return r
}
