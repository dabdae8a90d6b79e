package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"
	. "verif/harness/core"
	"verif/harness/ref"
)

func checkDecompose(c *C, x *big.Int, u, l int64) {
	in := new(big.Int).Set(x)
	var got []int64
	var err error
	if p := Call(func() { got, err = util.Decompose(in, u, l) }); p != nil || err != nil {
		c.Fail("Decompose(%s,%d,%d): %v %v", x, u, l, err, p)
		return
	}
	if in.Cmp(x) != 0 {
		c.Fail("Decompose(%s,%d,%d) changed its argument to %s", x, u, l, in)
	}
	want := ref.Digits(x, u, l)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fail("Decompose(%s,%d,%d) = %v, want %v", x, u, l, got, want)
	}
	again, err := util.Decompose(in, u, l)
	if err != nil || fmt.Sprint(again) != fmt.Sprint(want) {
		c.Fail("Decompose(%s,%d,%d) a second time: %v", x, u, l, again)
	}
	c.Eval(u, min(l, 70), x.Sign(), x.BitLen()/16)
	c.Count("decompositions")
}

var p30 = Prop{
	ID:   "P30",
	Rule: "bases from 2 to 2^63-1, up to 300 digits, integers inside, at and outside u^l of both signs; digits compared with a model. Distinct: base, number of digits, sign and length of the integer.",
	Min:  300,
	Suites: []Suite{
		{"random", 400, 6000, func(c *C) {
			for i := 0; i < 300; i++ {
				u := []int64{2, 3, 4, 5, 7, 10, 16, 57, 255, 256, 257, 1000, 1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, 1<<62 + 1, 1<<63 - 1}[c.R.Intn(21)]
				if c.R.Intn(3) == 0 {
					u = 2 + int64(c.R.Uint64()>>(1+uint(c.R.Intn(62))))
					if u < 2 {
						u = 2
					}
				}
				l := int64(c.R.Intn(12))
				if c.R.Intn(5) == 0 {
					l = int64(c.R.Intn(300))
				}
				top := new(big.Int).Exp(I(u), I(l), nil)
				var x *big.Int
				switch c.R.Intn(8) {
				case 0:
					x = new(big.Int).Sub(top, I(1))
				case 1:
					x = new(big.Int).Add(top, I(int64(c.R.Intn(3))))
				case 2:
					x = I(int64(c.R.Intn(5)) - 2)
				case 3:
					x = hostileInt(c.R)
				case 4:
					x = new(big.Int).Neg(c.R.Below(new(big.Int).Add(top, I(2))))
				case 5: // digits of 0 and u-1
					x = I(0)
					for k := int64(0); k < l; k++ {
						x.Mul(x, I(u))
						if c.R.Bool() {
							x.Add(x, I(u-1))
						}
					}
				default:
					x = c.R.Below(top)
				}
				checkDecompose(c, x, u, l)
			}
		}},
		{"exhaustive", 8, 8, func(c *C) {
			u := int64(2 + c.Idx)
			for l := int64(0); l < 5; l++ {
				top := new(big.Int).Exp(I(u), I(l), nil).Int64()
				for x := -top - 2; x <= top+2; x++ {
					checkDecompose(c, I(x), u, l)
				}
			}
		}},
		{"bits", 64, 400, func(c *C) {
			for k := 0; k <= 64; k++ {
				for d := int64(-1); d <= 1; d++ {
					x := new(big.Int).Add(Pow2(k), I(d))
					checkDecompose(c, x, 2, 1+int64(c.R.Intn(66)))
					checkDecompose(c, x.Neg(x), 2, 32)
				}
			}
		}},
	},
}

func hostileVector(r *Rng, n int) []*big.Int {
	if n == 0 && r.Bool() {
		return nil
	}
	v := make([]*big.Int, n)
	for i := range v {
		switch r.Intn(6) {
		case 0:
			v[i] = I(int64(r.Intn(5)) - 2)
		case 1:
			v[i] = new(big.Int).Add(new(big.Int).Mul(ref.SecN, I(int64(r.Intn(5))-2)), I(int64(r.Intn(3))-1))
		case 2:
			v[i] = hostileInt(r)
		default:
			v[i] = r.Below(ref.SecN)
		}
		if i > 0 && r.Intn(8) == 0 {
			v[i] = v[r.Intn(i)] // the same memory twice
		}
	}
	return v
}

func copyVec(v []*big.Int) []*big.Int {
	o := make([]*big.Int, len(v))
	for i := range v {
		o[i] = new(big.Int).Set(v[i])
	}
	return o
}

func sameVec(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func hostilePoint(r *Rng) (*p256.P256, ref.Pt) {
	var q ref.Pt
	switch r.Intn(8) {
	case 0:
		q = ref.Pt{Inf: true}
	case 1:
		q = SecMul(ref.SecG, I(int64(1+r.Intn(3))))
	case 2:
		q = SecMul(ref.SecG, I(-int64(1+r.Intn(3))))
	default:
		q = SecMul(ref.SecG, r.Below(ref.SecN))
	}
	return ToP(q), q
}

func length(r *Rng) int {
	if r.Intn(40) == 0 {
		return []int{65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300}[r.Intn(11)]
	}
	return []int{0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 70}[r.Intn(13)]
}

// vectorOps are the operations on two vectors, with their models.
var vectorOps = []struct {
	name string
	run  func(a, b []*big.Int) ([]*big.Int, error)
	one  func(x, y *big.Int) *big.Int
}{
	{"VectorAdd", bp.VectorAdd, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }},
	{"VectorSub", bp.VectorSub, func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }},
	{"VectorMul", bp.VectorMul, func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }},
}

var p31 = Prop{
	ID:   "P31",
	Rule: "vectors of lengths 0 to 300 with zero, negative, congruent and huge entries, shared entries, the same vector twice, and pairs of different lengths; results compared with component-wise models (points by the affine model), inputs compared with snapshots. Distinct: operation, lengths.",
	Min:  100,
	Suites: []Suite{
		{"scalars", 400, 6000, func(c *C) {
			for i := 0; i < 20; i++ {
				n := length(c.R)
				m := n
				if c.R.Intn(4) == 0 {
					m = length(c.R)
				}
				a, b := hostileVector(c.R, n), hostileVector(c.R, m)
				if n == m && c.R.Intn(8) == 0 {
					b = a
				}
				a0, b0 := copyVec(a), copyVec(b)
				pure := func(name string) {
					if !sameVec(a, a0) || !sameVec(b, b0) {
						c.Fail("%s changed its arguments: %v %v -> %v %v", name, a0, b0, a, b)
					}
				}
				for _, op := range vectorOps {
					var got []*big.Int
					var err error
					if p := Call(func() { got, err = op.run(a, b) }); p != nil {
						c.Fail("%s of lengths %d and %d: %v", op.name, n, m, p)
						continue
					}
					pure(op.name)
					if n != m {
						if err == nil {
							c.Fail("%s of lengths %d and %d: no error", op.name, n, m)
						}
					} else {
						want := make([]*big.Int, n)
						for k := range want {
							want[k] = ModN(op.one(a0[k], b0[k]))
						}
						if err != nil || !sameVec(got, want) {
							c.Fail("%s(%v,%v) = %v, error %v, want %v", op.name, a0, b0, got, err, want)
						}
						for k := range got {
							got[k].Add(got[k], I(1))
						}
						pure("writing to the result of " + op.name)
					}
					c.Eval(op.name, n, m)
					c.Count("vector operations")
				}
				// inner product
				var ip *big.Int
				var err error
				if p := Call(func() { ip, err = bp.ScalarProduct(a, b) }); p != nil {
					c.Fail("ScalarProduct of lengths %d and %d: %v", n, m, p)
				} else if n != m {
					if err == nil {
						c.Fail("ScalarProduct of lengths %d and %d: no error", n, m)
					}
				} else if want := ref.InnerProduct(a0, b0, ref.SecN); err != nil || ip == nil || ip.Cmp(want) != 0 {
					c.Fail("ScalarProduct(%v,%v) = %v, error %v, want %s", a0, b0, ip, err, want)
				}
				pure("ScalarProduct")
				c.Eval("ScalarProduct", n, m)
				// scalar multiplication
				k := hostileVector(c.R, 1)[0]
				if n > 0 && c.R.Intn(4) == 0 {
					k = a[c.R.Intn(n)]
				}
				k0 := new(big.Int).Set(k)
				var got []*big.Int
				if p := Call(func() { got, err = bp.VectorScalarMul(a, k) }); p != nil {
					c.Fail("VectorScalarMul: %v", p)
				} else {
					want := make([]*big.Int, n)
					for j := range want {
						want[j] = ModN(new(big.Int).Mul(a0[j], k0))
					}
					if err != nil || !sameVec(got, want) {
						c.Fail("VectorScalarMul(%v,%s) = %v, error %v, want %v", a0, k0, got, err, want)
					}
				}
				pure("VectorScalarMul")
				if k.Cmp(k0) != 0 {
					c.Fail("VectorScalarMul changed its factor %s to %s", k0, k)
				}
				c.Eval("VectorScalarMul", n)
				// copies and conversion
				if p := Call(func() { got, err = bp.VectorCopy(k, int64(n)) }); p != nil || err != nil || len(got) != n {
					c.Fail("VectorCopy(%s,%d): %v %v, length %d", k0, n, err, p, len(got))
				}
				for j := range got {
					if got[j] == nil || got[j].Cmp(k0) != 0 {
						c.Fail("VectorCopy(%s,%d)[%d] = %v", k0, n, j, got[j])
					}
				}
				if k.Cmp(k0) != 0 {
					c.Fail("VectorCopy changed its argument %s to %s", k0, k)
				}
				ints := make([]int64, n+c.R.Intn(3))
				for j := range ints {
					ints[j] = []int64{0, 1, -1, 1<<63 - 1, -1 << 63, c.R.Int64(), 1 << 32, 1 << 53}[c.R.Intn(8)]
				}
				keep := append([]int64(nil), ints...)
				if p := Call(func() { got, err = bp.VectorConvertToBig(ints, int64(n)) }); p != nil || err != nil || len(got) != n {
					c.Fail("VectorConvertToBig(%v,%d): %v %v, length %d", ints, n, err, p, len(got))
				}
				for j := range got {
					if got[j] == nil || got[j].Cmp(I(keep[j])) != 0 {
						c.Fail("VectorConvertToBig(%v,%d)[%d] = %v", keep, n, j, got[j])
					}
				}
				if fmt.Sprint(ints) != fmt.Sprint(keep) {
					c.Fail("VectorConvertToBig changed its argument")
				}
				c.Eval("VectorCopy", n)
			}
		}},
		{"points", 400, 6000, func(c *C) {
			n := length(c.R)
			m := n
			if c.R.Intn(4) == 0 {
				m = length(c.R)
			}
			var a, b []*p256.P256
			var am, bm []ref.Pt
			for i := 0; i < n; i++ {
				p, q := hostilePoint(c.R)
				a, am = append(a, p), append(am, q)
			}
			for i := 0; i < m; i++ {
				p, q := hostilePoint(c.R)
				if i < n && c.R.Intn(4) == 0 { // equal or opposite points
					q = am[i]
					if c.R.Bool() {
						q = ref.Secp.Neg(q)
					}
					p = ToP(q)
				}
				b, bm = append(b, p), append(bm, q)
			}
			e := hostileVector(c.R, m)
			e0 := copyVec(e)
			as, bs := Snapshot(&a), Snapshot(&b)
			pure := func(name string) {
				if d := DiffSnap(as, Snapshot(&a)) + DiffSnap(bs, Snapshot(&b)); d != "" || !sameVec(e, e0) {
					c.Fail("%s changed its arguments: %s", name, d)
				}
			}
			var sum []*p256.P256
			var err error
			if p := Call(func() { sum, err = bp.VectorECAdd(a, b) }); p != nil {
				c.Fail("VectorECAdd of lengths %d and %d: %v", n, m, p)
			} else if n != m {
				if err == nil {
					c.Fail("VectorECAdd of lengths %d and %d: no error", n, m)
				}
			} else {
				if err != nil || len(sum) != n {
					c.Fail("VectorECAdd of length %d: length %d, error %v", n, len(sum), err)
				}
				for i := range sum {
					got, e := FromP(sum[i])
					if want := ref.Secp.Add(am[i], bm[i]); e != nil || !got.Equal(want) {
						c.Fail("VectorECAdd: %s + %s = %s (%v), want %s", am[i], bm[i], got, e, want)
					}
				}
			}
			pure("VectorECAdd")
			c.Eval("VectorECAdd", n, m)
			var prod *p256.P256
			if p := Call(func() { prod, err = bp.VectorExp(a, e) }); p != nil {
				c.Fail("VectorExp of lengths %d and %d: %v", n, m, p)
			} else if n != m {
				if err == nil {
					c.Fail("VectorExp of lengths %d and %d: no error", n, m)
				}
			} else {
				want := ref.Pt{Inf: true}
				for i := range am {
					want = ref.Secp.Add(want, SecMul(am[i], e0[i]))
				}
				got, e := FromP(prod)
				if err != nil || e != nil || !got.Equal(want) {
					c.Fail("VectorExp of length %d = %s (%v, %v), want %s; exponents %v", n, got, err, e, want, e0)
				}
			}
			pure("VectorExp")
			c.Eval("VectorExp", n, m)
			c.CountN("points combined", n)
		}},
	},
}

func modulus(r *Rng) *big.Int {
	switch r.Intn(7) {
	case 0:
		return I(int64(1 + r.Intn(40)))
	case 1:
		return ref.SecN
	case 2:
		return ref.BnN
	case 3:
		return Pow2(1 + r.Intn(300))
	case 4:
		return new(big.Int).Add(r.Bits(256), I(1))
	case 5:
		return ref.SecP
	}
	return new(big.Int).Add(r.Bits(1+r.Intn(600)), I(1))
}

// inverse is the model: nil unless gcd(b, m) = 1.
func inverse(b, m *big.Int) *big.Int {
	// extended Euclid
	r0, r1 := new(big.Int).Set(m), new(big.Int).Mod(b, m)
	t0, t1 := I(0), I(1)
	for r1.Sign() != 0 {
		q := new(big.Int).Div(r0, r1)
		r0, r1 = r1, new(big.Int).Sub(r0, new(big.Int).Mul(q, r1))
		t0, t1 = t1, new(big.Int).Sub(t0, new(big.Int).Mul(q, t1))
	}
	if r0.Cmp(I(1)) != 0 {
		return nil
	}
	return t0.Mod(t0, m)
}

// power is the model, by repeated squaring.
func power(b, e, m *big.Int) *big.Int {
	r := new(big.Int).Mod(I(1), m)
	x := new(big.Int).Mod(b, m)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r.Mul(r, r).Mod(r, m)
		if e.Bit(i) == 1 {
			r.Mul(r, x).Mod(r, m)
		}
	}
	return r
}

func str(x *big.Int) string {
	if x == nil {
		return "nil"
	}
	return x.String()
}

var p32 = Prop{
	ID:   "P32",
	Rule: "hostile integers and moduli (1, small, composite, powers of two, both group orders, random) for the helpers in util/bn, also with one value as two arguments; compared with models written for the harness, arguments compared with copies. Distinct: operation, signs, size classes, existence of the inverse.",
	Min:  100,
	Suites: []Suite{
		{"arithmetic", 600, 8000, func(c *C) {
			for i := 0; i < 300; i++ {
				x, y, m := hostileInt(c.R), hostileInt(c.R), modulus(c.R)
				switch c.R.Intn(8) {
				case 0:
					y = x
				case 1:
					x = m
				case 2:
					y = m
				case 3:
					x = new(big.Int).Mul(m, I(int64(c.R.Intn(5))-2))
				}
				m = new(big.Int).Set(m)
				x0, y0, m0 := new(big.Int).Set(x), new(big.Int).Set(y), new(big.Int).Set(m)
				check := func(name string, f func() *big.Int, want *big.Int) {
					var got *big.Int
					if p := Call(func() { got = f() }); p != nil {
						c.Fail("%s(%s,%s; %s): %v", name, x0, y0, m0, p)
						return
					}
					if str(got) != str(want) {
						c.Fail("%s(%s,%s; %s) = %s, want %s", name, x0, y0, m0, str(got), str(want))
					}
					if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 || m.Cmp(m0) != 0 {
						c.Fail("%s(%s,%s; %s) changed its arguments to %s,%s; %s", name, x0, y0, m0, x, y, m)
						x.Set(x0)
						y.Set(y0)
						m.Set(m0)
					}
					c.Eval(name, x0.Sign(), y0.Sign(), min(x0.BitLen()/64, 5), want == nil)
					c.Count("operations")
				}
				check("Add", func() *big.Int { return bn.Add(x, y) }, new(big.Int).Add(x0, y0))
				check("Sub", func() *big.Int { return bn.Sub(x, y) }, new(big.Int).Sub(x0, y0))
				check("Multiply", func() *big.Int { return bn.Multiply(x, y) }, new(big.Int).Mul(x0, y0))
				check("Mod", func() *big.Int { return bn.Mod(x, m) }, new(big.Int).Mod(x0, m0))
				inv := inverse(x0, m0)
				check("ModInverse", func() *big.Int { return bn.ModInverse(x, m) }, inv)
				if y0.BitLen() < 600 {
					if y0.Sign() >= 0 {
						check("ModPow", func() *big.Int { return bn.ModPow(x, y, m) }, power(x0, y0, m0))
					} else if inv != nil {
						check("ModPow", func() *big.Int { return bn.ModPow(x, y, m) }, power(inv, new(big.Int).Neg(y0), m0))
					}
				}
			}
		}},
		{"small", 8, 8, func(c *C) {
			for m := int64(1 + c.Idx); m < 60; m += 8 {
				for b := -m - 1; b <= 2*m; b++ {
					inv := inverse(I(b), I(m))
					if got := bn.ModInverse(I(b), I(m)); str(got) != str(inv) {
						c.Fail("ModInverse(%d,%d) = %s, want %s", b, m, str(got), str(inv))
					}
					for e := int64(-7); e <= 7; e++ {
						if e < 0 && inv == nil {
							continue
						}
						want := power(I(b), I(e), I(m))
						if e < 0 {
							want = power(inv, I(-e), I(m))
						}
						if got := bn.ModPow(I(b), I(e), I(m)); str(got) != str(want) {
							c.Fail("ModPow(%d,%d,%d) = %s, want %s", b, e, m, str(got), str(want))
						}
					}
					c.Eval("small", m, inv == nil)
					c.Count("operations")
				}
			}
		}},
		{"hash", 200, 4000, func(c *C) {
			for i := 0; i < 300; i++ {
				x := hostileInt(c.R)
				y := hostileInt(c.R)
				if c.R.Intn(6) == 0 {
					y = nil
				}
				h := func(x, y *big.Int) string {
					d := sha256.New()
					d.Write(ref.TwosComplement(x))
					if y != nil {
						d.Write(ref.TwosComplement(y))
					}
					return ref.FromTwosComplement(d.Sum(nil)).String()
				}
				call := func(x, y *big.Int) string {
					var got *big.Int
					var err error
					if p := Call(func() { got, err = bn.CalculateHash(x, y) }); p != nil || err != nil {
						return fmt.Sprint(p, err)
					}
					return str(got)
				}
				x0 := new(big.Int).Set(x)
				y0 := str(y)
				got := call(x, y)
				if want := h(x0, y); got != want {
					c.Fail("CalculateHash(%s,%s) = %s, want %s", x0, y0, got, want)
				}
				if x.Cmp(x0) != 0 || str(y) != y0 {
					c.Fail("CalculateHash(%s,%s) changed its arguments", x0, y0)
				}
				if call(new(big.Int).Add(x, I(1)), y) == got {
					c.Fail("CalculateHash does not depend on its first argument %s", x0)
				}
				if call(new(big.Int).Neg(x), y) == got && x.Sign() != 0 {
					c.Fail("CalculateHash does not depend on the sign of its first argument %s", x0)
				}
				if y != nil {
					if call(x, new(big.Int).Add(y, I(1))) == got {
						c.Fail("CalculateHash does not depend on its second argument %s", y0)
					}
					if x.Cmp(y) != 0 && len(ref.TwosComplement(x)) == len(ref.TwosComplement(y)) && call(y, x) == got {
						c.Fail("CalculateHash(%s,%s) does not depend on the order", x0, y0)
					}
				}
				c.Eval("hash", x.Sign(), y0 == "nil", x.BitLen()%8)
				c.Count("hashes")
			}
		}},
	},
}
