package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/ref"
)

type codec struct {
	name  string
	size  int
	dec   func(b []byte, dirty bool) (func() []byte, bool)
	valid func(b []byte) bool // is this the encoding of an element of the group?
}

func coord(b []byte, i int) *big.Int { return new(big.Int).SetBytes(b[32*i : 32*i+32]) }
func below(b []byte) bool {
	for i := 0; i < len(b)/32; i++ {
		if coord(b, i).Cmp(ref.BnP) >= 0 {
			return false
		}
	}
	return true
}
func allZero(b []byte) bool { return len(bytes.Trim(b, "\x00")) == 0 }

var codecs = []codec{
	{"G1", 64, func(b []byte, dirty bool) (func() []byte, bool) {
		r := new(bn256.G1)
		if dirty {
			r.ScalarBaseMult(I(77))
		}
		x, ok := r.Unmarshal(b)
		if x == nil {
			return nil, ok
		}
		return x.Marshal, ok
	}, func(b []byte) bool {
		if len(b) != 64 || !below(b) {
			return false
		}
		x, y := coord(b, 0), coord(b, 1)
		if x.Sign() == 0 && y.Cmp(I(1)) <= 0 {
			return true
		}
		return ref.Bn.On(ref.Pt{X: x, Y: y})
	}},
	{"G2", 128, func(b []byte, dirty bool) (func() []byte, bool) {
		r := new(bn256.G2)
		if dirty {
			r.ScalarBaseMult(I(77))
		}
		x, ok := r.Unmarshal(b)
		if x == nil {
			return nil, ok
		}
		return x.Marshal, ok
	}, func(b []byte) bool {
		if len(b) != 128 || !below(b) {
			return false
		}
		if allZero(b) {
			return true
		}
		p := ref.Pt2{X: ref.NewF2(coord(b, 1), coord(b, 0)), Y: ref.NewF2(coord(b, 3), coord(b, 2))}
		return p.On() && p.Mul(ref.BnN).Inf
	}},
	{"GT", 384, func(b []byte, dirty bool) (func() []byte, bool) {
		r := new(bn256.GT)
		if dirty {
			r.ScalarMult(util.E, I(77))
		}
		x, ok := r.Unmarshal(b)
		if x == nil {
			return nil, ok
		}
		return x.Marshal, ok
	}, func(b []byte) bool {
		if len(b) != 384 || !below(b) {
			return false
		}
		return ref.F12FromBytes(b).Pow(ref.BnN).Equal(ref.F12One())
	}},
}

// offer decodes b and compares the decision with the model. The model is only consulted
// for acceptance when it is needed (it is slow).
func offer(c *C, cd codec, b []byte, kind string) {
	in := append([]byte(nil), b...)
	var enc func() []byte
	var ok bool
	p := Call(func() { enc, ok = cd.dec(in, c.R.Bool()) })
	c.Eval(cd.name, kind, len(b) == cd.size, ok)
	c.Count("decodings judged")
	if p != nil {
		c.Fail("%s Unmarshal(%x) [%s]: %v", cd.name, b, kind, p)
		return
	}
	if !bytes.Equal(in, b) {
		c.Fail("%s Unmarshal changed its input [%s]", cd.name, kind)
	}
	valid := false
	if kind == "valid" {
		valid = true
	} else if ok || len(b) == cd.size && cd.name != "GT" || kind == "subgroup" {
		valid = cd.valid(b)
	}
	if ok != valid {
		c.Fail("%s Unmarshal(%x) [%s] accepted=%v, but it is an encoding: %v", cd.name, b, kind, ok, valid)
		return
	}
	if ok {
		if enc == nil {
			c.Fail("%s Unmarshal(%x) returned nil, true", cd.name, b)
			return
		}
		e := enc()
		if !bytes.Equal(e, b) && !(cd.name == "G1" && allZero(b)) {
			c.Fail("%s Unmarshal(%x) [%s] encodes as %x", cd.name, b, kind, e)
		}
	}
}

func validEnc(c *C, cd codec, k *big.Int) []byte {
	switch cd.name {
	case "G1":
		return raw(g1{}.model(k))
	case "G2":
		return raw(g2{}.model(k))
	}
	return raw(ePow(k))
}

var p25 = Prop{
	ID:   "P25",
	Rule: "elements in five representations (identity and coordinates with leading zeros included) encoded and decoded, encodings compared with the model's; byte strings of wrong length, with coordinates p, p+x, 2^256-1, single bit flips, off-curve points, points of the twist outside the subgroup, elements of GF(p^12) outside GT, each accepted or rejected as the model says. Distinct: group, kind of string, verdict.",
	Min:  60,
	Suites: []Suite{
		{"roundtrip", 120, 1500, func(c *C) {
			g := groups[c.Idx%2]
			for n := 0; n < 2; n++ {
				k := expo(c)
				want := g.model(k)
				for r := 0; r < nReps; r++ {
					x := element(c, g, k, r)
					e := g.enc(x)
					c.Eval("enc", g.name(), r, k.Sign(), c.Idx)
					c.Count("encodings compared")
					if e != want {
						c.Fail("%s: base^%s rep %d is encoded as %s, want %s", g.name(), k, r, e, want)
						continue
					}
					if g.enc(x) != e {
						c.Fail("%s: encoding twice differs", g.name())
					}
					y, ok := g.dec(raw(e))
					if !ok {
						c.Fail("%s: cannot decode base^%s", g.name(), k)
						continue
					}
					// the decoded element behaves like the original
					s := expo(c, k)
					if g.enc(g.add(g.new(), y, g.base(s))) != g.enc(g.add(g.new(), x, g.base(s))) || g.enc(g.mul(g.new(), y, I(3))) != g.enc(g.mul(g.new(), x, I(3))) || g.isZero(y) != g.isZero(x) {
						c.Fail("%s: decoded base^%s (rep %d) does not behave like the original", g.name(), k, r)
					}
				}
				// GT
				a := gtEl(c, k)
				e := a.Marshal()
				c.Eval("enc GT", k.Sign(), c.Idx)
				c.Count("encodings compared")
				if fmt.Sprintf("%x", e) != ePow(k) {
					c.Fail("GT: e^%s is encoded wrongly", k)
				}
				b, ok := new(bn256.GT).Unmarshal(e)
				if !ok || b == nil {
					c.Fail("GT: cannot decode e^%s", k)
					continue
				}
				if gtHex(b) != gtHex(a) || b.IsOne() != a.IsOne() || gtHex(new(bn256.GT).Add(b, util.E)) != gtHex(new(bn256.GT).Add(a, util.E)) {
					c.Fail("GT: decoded e^%s does not behave like the original", k)
				}
				u := new(bn256.GT).Add(a, new(bn256.GT).Invert(gtEl(c, expo(c))))
				b, ok = new(bn256.GT).Unmarshal(u.Marshal())
				if !ok || gtHex(b) != gtHex(u) {
					c.Fail("GT: cannot decode a quotient")
				}
				// identity made in different ways
				d := g.add(g.new(), g.base(k), g.neg(g.new(), g.base(k)))
				if g.enc(d) != smallModel(g, 0) || g.enc(g.infinity()) != smallModel(g, 0) {
					c.Fail("%s: encodings of the identity differ", g.name())
				}
				one := new(bn256.GT).Add(a, new(bn256.GT).Invert(a))
				if gtHex(one) != oneHex || gtHex(new(bn256.GT).ScalarMult(a, I(0))) != oneHex {
					c.Fail("GT: encodings of the identity differ")
				}
				c.Sample("%s base^%s = %s", g.name(), k, want)
			}
		}},
		{"leading zeros", 24, 200, func(c *C) {
			// points with small coordinates
			for n := 0; n < 20; n++ {
				x := c.R.Bits(8 * (1 + c.R.Intn(31)))
				if p, ok := ref.Bn.Lift(x); ok {
					if c.R.Bool() {
						p = ref.Bn.Neg(p)
					}
					offer(c, codecs[0], raw(g1Bytes(p)), "valid")
					c.Eval("short", x.BitLen()/8)
				}
			}
		}},
		{"wrong length", 12, 60, func(c *C) {
			for _, cd := range codecs {
				e := validEnc(c, cd, expo(c))
				for n := 0; n < 24; n++ {
					l := c.R.Intn(cd.size + 80)
					if n < 8 {
						l = []int{0, 1, cd.size - 1, cd.size + 1, cd.size / 2, 2 * cd.size, cd.size - 32, cd.size + 32}[n]
					}
					if l == cd.size {
						continue
					}
					b := append(append([]byte(nil), e...), c.R.Bytes(2*cd.size)...)[:l]
					if c.R.Bool() {
						b = append(append([]byte(nil), e...), make([]byte, 2*cd.size)...)[:l]
					}
					if c.R.Intn(4) == 0 { // leading zeros
						b = append(make([]byte, 32), e...)
						if len(b) > l && l > cd.size {
							b = b[:l]
						}
					}
					if len(b) != cd.size {
						offer(c, cd, b, "length")
					}
				}
			}
		}},
		{"unreduced", 24, 200, func(c *C) {
			for _, cd := range codecs {
				e := validEnc(c, cd, expo(c))
				if c.Idx == 0 {
					e = validEnc(c, cd, I(0))
				}
				for i := 0; i < cd.size/32; i++ {
					for kind := 0; kind < 4; kind++ {
						b := append([]byte(nil), e...)
						v := coord(b, i)
						switch kind {
						case 0:
							v.Add(v, ref.BnP)
						case 1:
							v.Set(ref.BnP)
						case 2:
							v.Sub(Pow2(256), I(1))
						case 3:
							v.Add(v, new(big.Int).Mul(ref.BnP, I(int64(2+c.R.Intn(4)))))
						}
						if v.BitLen() > 256 {
							continue
						}
						v.FillBytes(b[32*i : 32*i+32])
						offer(c, cd, b, fmt.Sprintf("unreduced %d", kind))
					}
				}
			}
		}},
		{"bit flips", 48, 400, func(c *C) {
			for _, cd := range codecs {
				e := validEnc(c, cd, expo(c))
				k := 12
				if cd.name == "GT" {
					k = 4
				}
				for n := 0; n < k; n++ {
					b := append([]byte(nil), e...)
					i := c.R.Intn(8 * cd.size)
					b[i/8] ^= 1 << (i % 8)
					offer(c, cd, b, "flip")
					b = append([]byte(nil), e...)
					i, j := c.R.Intn(cd.size/32), c.R.Intn(cd.size/32)
					if i != j {
						copy(b[32*i:32*i+32], e[32*j:])
						copy(b[32*j:32*j+32], e[32*i:])
						offer(c, cd, b, "exchange")
					}
					b = append([]byte(nil), e...)
					v := new(big.Int).Sub(ref.BnP, coord(b, i))
					if v.Mod(v, ref.BnP).Cmp(coord(b, i)) != 0 {
						v.FillBytes(b[32*i : 32*i+32])
						offer(c, cd, b, "negated coordinate")
					}
					b = append([]byte(nil), e...)
					copy(b[32*i:32*i+32], make([]byte, 32))
					offer(c, cd, b, "zeroed coordinate")
				}
			}
		}},
		{"random", 24, 300, func(c *C) {
			for _, cd := range codecs {
				for n := 0; n < 4; n++ {
					b := make([]byte, cd.size)
					for i := 0; i < cd.size/32; i++ {
						v := c.R.Below(ref.BnP)
						if c.R.Intn(3) == 0 {
							v = c.R.Bits(c.R.Intn(3))
						}
						v.FillBytes(b[32*i : 32*i+32])
					}
					offer(c, cd, b, "random")
				}
				offer(c, cd, make([]byte, cd.size), "zero")
				b := make([]byte, cd.size)
				b[cd.size-1] = 1
				offer(c, cd, b, "one")
				b = bytes.Repeat([]byte{255}, cd.size)
				offer(c, cd, b, "ones")
			}
		}},
		{"outside the subgroup", 48, 500, func(c *C) {
			// the twist has points of other orders
			for n := 0; n < 8; n++ {
				x := ref.NewF2(c.R.Below(ref.BnP), c.R.Below(ref.BnP))
				if c.R.Bool() {
					x = ref.NewF2(c.R.Bits(8), c.R.Bits(4))
				}
				p, ok := ref.LiftTwist(x)
				if !ok {
					continue
				}
				kind := "subgroup"
				switch c.R.Intn(4) {
				case 0: // of an order dividing the cofactor
					p = p.Mul(ref.BnN)
				case 1: // a subgroup element plus a small-order one
					p = p.Mul(ref.BnN).Add(ref.BnG2.Mul(c.R.Below(ref.BnN)))
				case 2:
					p = p.Mul(new(big.Int).Sub(new(big.Int).Lsh(ref.BnP, 1), ref.BnN)) // cofactor cleared: in the subgroup
				}
				offer(c, codecs[1], raw(g2Bytes(p)), kind)
				c.Sample("twist point %s", g2Bytes(p))
			}
			// elements of GF(p^12)* outside of GT
			var f ref.F12
			switch c.Idx % 4 {
			case 0: // -1, or another small element
				f = ref.F12One()
				f[0] = new(big.Int).Sub(ref.BnP, I(int64(1+c.R.Intn(2))))
			case 1: // -e^k
				f = eModel().Pow(c.R.Below(ref.BnN))
				for i := range f {
					f[i] = new(big.Int).Mod(new(big.Int).Neg(f[i]), ref.BnP)
				}
			case 2:
				f = ref.F12FromBytes(raw(ePow(I(0))))
				for i := range f {
					f[i] = c.R.Below(ref.BnP)
				}
			case 3: // in the cyclotomic subgroup: f^((p^6-1)(p^2+1))
				for i := range f {
					f[i] = c.R.Below(ref.BnP)
				}
				e := new(big.Int).Exp(ref.BnP, I(6), nil)
				e.Sub(e, I(1))
				e2 := new(big.Int).Mul(ref.BnP, ref.BnP)
				f = f.Pow(e.Mul(e, e2.Add(e2, I(1))))
			}
			offer(c, codecs[2], f.Bytes(), "subgroup")
		}},
	},
}
