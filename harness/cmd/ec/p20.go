package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/ref"
)

func hostileString(c *C) string {
	switch c.R.Intn(6) {
	case 0:
		return ""
	case 1:
		return string(c.R.Bytes(c.R.Intn(8)))
	case 2:
		return fmt.Sprint(c.R.Intn(3000))
	case 3:
		return string(c.R.Bytes(1000 + c.R.Intn(2000)))
	case 4:
		return bulletproofs.SEEDH + "g" + fmt.Sprint(c.R.Intn(100))
	}
	b := make([]byte, 1+c.R.Intn(20))
	for i := range b {
		b[i] = byte("abcXYZ09 -_\x00\xff"[c.R.Intn(13)])
	}
	return string(b)
}

const seedH = "BulletproofsDoesNotNeedTrustedSetupH"
const seedU = "BulletproofsDoesNotNeedTrustedSetupU"

func wantGen(c *C, got *p256.P256, seed, name string) {
	want, ok := ref.MapToGroup(seed)
	if !ok {
		return
	}
	same(c, got, want, "generator %s", name)
	c.Count("generators compared")
}

var p20 = Prop{
	ID:   "P20",
	Rule: "strings: empty, short, binary, numeric, long, near the seeds; each hashed twice and compared with an independent try-and-increment model. Setups of every size, repeated and interleaved with proofs: every generator compared with the model and with all the others. Distinct: string, or (size, kind of generator).",
	Min:  60,
	Suites: []Suite{
		{"strings", 1600, 12000, func(c *C) {
			seen := map[string]string{}
			for n := 0; n < 25; n++ {
				s := hostileString(c)
				want, ok := ref.MapToGroup(s)
				var p, q *p256.P256
				var err error
				if e := Call(func() { p, err = p256.MapToGroup(s) }); e != nil || (err == nil) != ok {
					c.Fail("MapToGroup(%q): %v %v", s, err, e)
					continue
				}
				c.Eval("string", s)
				c.Count("strings hashed")
				if !ok {
					continue
				}
				same(c, p, want, "MapToGroup(%q)", s)
				if want.Inf || p.IsZero() || !p.IsOnCurve() {
					c.Fail("MapToGroup(%q) is no usable generator", s)
				}
				// using the point must not change what the string maps to
				p.Multiply(p, p)
				q, _ = p256.MapToGroup(s)
				same(c, q, want, "second MapToGroup(%q)", s)
				if len(s) > 0 && (s[0] < '0' || s[0] > '9') {
					k := want.String()
					if t, ok := seen[k]; ok && t != s {
						c.Fail("%q and %q map to the same point", s, t)
					}
					seen[k] = s
				}
				c.Sample("%.40q -> %s", s, want)
			}
		}},
		{"related strings", 60, 400, func(c *C) {
			// families of strings that share a beginning, an end, a middle or a length
			long := make([]byte, 20+c.R.Intn(200))
			for i := range long {
				long[i] = byte('A' + c.R.Intn(26))
			}
			l := string(long)
			var fam []string
			for k := 0; k < 6; k++ {
				cut := c.R.Intn(len(l))
				tail := fmt.Sprint(c.R.Intn(1000))
				fam = append(fam, l+tail, tail+l, l[:cut], l[cut:], l[:cut]+tail+l[cut:])
				flip := []byte(l)
				flip[c.R.Intn(len(l))] ^= 1 << c.R.Intn(6)
				fam = append(fam, string(flip))
				fam = append(fam, seedH+"g"+string(rune(k)), seedH+"h"+string(rune(k)), seedH[:c.R.Intn(len(seedH))]+tail)
			}
			fam = append(fam, l, l+l, l+"\x00", "\x00"+l, l+" ", l+"0", "0"+l)
			for i := len(fam) - 1; i > 0; i-- {
				j := c.R.Intn(i + 1)
				fam[i], fam[j] = fam[j], fam[i]
			}
			for _, s := range fam {
				want, ok := ref.MapToGroup(s)
				var p *p256.P256
				var err error
				if e := Call(func() { p, err = p256.MapToGroup(s) }); e != nil || (err == nil) != ok {
					c.Fail("MapToGroup(%q): %v %v", s, err, e)
					continue
				}
				c.Eval("related", s)
				c.Count("strings hashed")
				if ok {
					same(c, p, want, "MapToGroup(%q)", s)
				}
			}
		}},
		{"generators", 36, 200, func(c *C) {
			all := map[string]string{}
			note := func(p *p256.P256, name string) {
				k := PStr(p)
				if t, ok := all[k]; ok && t != name {
					c.Fail("generators %s and %s are the same point %s", name, t, k)
				}
				all[k] = name
				if k == "inf" {
					c.Fail("generator %s is infinity", name)
				}
			}
			ns := []int{1, 2, 4, 8, 16, 32}
			for _, n := range []int{ns[c.Idx%6], ns[c.R.Intn(6)], 32} {
				prm, err := bulletproofs.Setup(int64(1) << n)
				if err != nil {
					c.Fail("Setup(2^%d): %v", n, err)
					return
				}
				same(c, prm.G, ref.SecG, "generator G")
				wantGen(c, prm.H, seedH, "H")
				note(prm.G, "G")
				note(prm.H, "H")
				if len(prm.Gg) != n || len(prm.Hh) != n {
					c.Fail("Setup(2^%d) has %d and %d generators", n, len(prm.Gg), len(prm.Hh))
					return
				}
				for i := 0; i < n; i++ {
					wantGen(c, prm.Gg[i], seedH+"g"+string(rune(i)), fmt.Sprintf("Gg[%d]", i))
					wantGen(c, prm.Hh[i], seedH+"h"+string(rune(i)), fmt.Sprintf("Hh[%d]", i))
					note(prm.Gg[i], fmt.Sprintf("Gg[%d]", i))
					note(prm.Hh[i], fmt.Sprintf("Hh[%d]", i))
					c.Eval("gen", n, i)
				}
				if n <= 8 {
					proof, err := bulletproofs.Prove(I(1), prm)
					if err != nil {
						c.Fail("Prove: %v", err)
						return
					}
					wantGen(c, proof.InnerProductProof.Params.Uu, seedU, "U")
					note(proof.InnerProductProof.Params.Uu, "U")
					if d := DiffSnap(Snapshot(&prm.Gg), Snapshot(&proof.Params.Gg)); d != "" {
						c.Fail("proving changed the generators: %s", d)
					}
				}
				ip, err := bulletproofs.VerifSetupInnerProduct(nil, nil, nil, I(3), int64(n))
				if err != nil {
					c.Fail("setupInnerProduct(%d): %v", n, err)
					return
				}
				wantGen(c, ip.Uu, seedU, "U")
				note(ip.Uu, "U")
				note(ip.H, "H")
				for i := range ip.Gg {
					note(ip.Gg[i], fmt.Sprintf("Gg[%d]", i))
					note(ip.Hh[i], fmt.Sprintf("Hh[%d]", i))
				}
			}
			g, err := bulletproofs.SetupGeneric(int64(c.R.Intn(1000)), 1000+int64(c.R.Intn(1000)))
			if err != nil {
				c.Fail("SetupGeneric: %v", err)
				return
			}
			for _, prm := range []bulletproofs.BulletProofSetupParams{g.BP1, g.BP2} {
				note(prm.G, "G")
				note(prm.H, "H")
				if len(prm.Gg) != 32 || len(prm.Hh) != 32 {
					c.Fail("SetupGeneric has %d and %d generators", len(prm.Gg), len(prm.Hh))
					return
				}
				for i := range prm.Gg {
					note(prm.Gg[i], fmt.Sprintf("Gg[%d]", i))
					note(prm.Hh[i], fmt.Sprintf("Hh[%d]", i))
				}
			}
			c.Eval("generic", c.Idx)
			c.Sample("%d generators, all distinct", len(all))
		}},
	},
}

var p21 = Prop{
	ID:   "P21",
	Rule: "messages and blindings from hostile integers (zero, negative, around and above the order, sparse), bases h that are infinity, the generator, its inverse, related to the commitment (g^x = h^r, g^x = h^-r) or unrelated; each commitment compared with an affine model, sums of commitments with the commitment of sums. Distinct: group, classes of x, r and h.",
	Min:  60,
	Suites: []Suite{
		{"CommitG1", 480, 9000, func(c *C) {
			for n := 0; n < 6; n++ {
				x, r := c.R.Scalar(ref.SecN), c.R.Scalar(ref.SecN)
				var h ref.Pt
				kind := c.R.Intn(8)
				switch kind {
				case 0:
					h = ref.Pt{Inf: true}
				case 1:
					h = ref.SecG
				case 2:
					h = ref.Secp.Neg(ref.SecG)
				case 3, 4: // g^x = h^(+-r)
					k := new(big.Int).ModInverse(ModN(r), ref.SecN)
					if k == nil {
						k = I(1)
					}
					k.Mul(k, x)
					if kind == 4 {
						k.Neg(k)
					}
					h = SecMul(ref.SecG, k)
				case 5:
					h, _ = ref.MapToGroup(seedH)
				default:
					h = hostilePoint(c)
				}
				want := ref.Secp.Add(SecMul(ref.SecG, x), SecMul(h, r))
				hh := rep(h, c.R.Intn(2))
				xx, rr := new(big.Int).Set(x), new(big.Int).Set(r)
				var got *p256.P256
				var err error
				if p := Call(func() { got, err = util.CommitG1(xx, rr, hh) }); p != nil || err != nil {
					c.Fail("CommitG1(%s,%s,%s): %v %v", x, r, h, err, p)
					continue
				}
				c.Eval("G1", kind, x.Sign(), r.Sign(), x.Cmp(ref.SecN), r.Cmp(ref.SecN), want.Inf)
				c.Count("commitments compared")
				same(c, got, want, "CommitG1(%s, %s, %s)", x, r, h)
				if xx.Cmp(x) != 0 || rr.Cmp(r) != 0 || PStr(hh) != PStr(ToP(h)) {
					c.Fail("CommitG1(%s,%s,%s) changed its arguments", x, r, h)
				}
				// homomorphic
				x2, r2 := c.R.Scalar(ref.SecN), c.R.Scalar(ref.SecN)
				g2, _ := util.CommitG1(x2, r2, hh)
				g3, _ := util.CommitG1(new(big.Int).Add(x, x2), new(big.Int).Add(r, r2), hh)
				if s := new(p256.P256).Multiply(got, g2); PStr(s) != PStr(g3) {
					c.Fail("CommitG1 is not homomorphic: (%s,%s)+(%s,%s), h=%s", x, r, x2, r2, h)
				}
				if kind == 5 {
					// binding
					for _, d := range [][2]*big.Int{{I(1), I(0)}, {I(0), I(1)}, {I(1), I(-1)}, {c.R.Below(ref.SecN), I(0)}} {
						if ModN(d[0]).Sign() == 0 && ModN(d[1]).Sign() == 0 {
							continue
						}
						o, _ := util.CommitG1(new(big.Int).Add(x, d[0]), new(big.Int).Add(r, d[1]), hh)
						c.Eval("binding")
						if PStr(o) == PStr(got) {
							c.Fail("CommitG1 gives the same commitment for (%s,%s) and that plus %v", x, r, d)
						}
					}
				}
				c.Sample("g^%s h^%s, h kind %d", x, r, kind)
			}
		}},
		{"Commit", 240, 3600, func(c *C) {
			for n := 0; n < 3; n++ {
				x, r := c.R.Scalar(ref.BnN), c.R.Scalar(ref.BnN)
				hk := c.R.Scalar(ref.BnN)
				kind := c.R.Intn(5)
				switch kind {
				case 0:
					hk = I(0)
				case 1:
					hk = I(int64(1 - 2*c.R.Intn(2)))
				case 2, 3:
					k := new(big.Int).ModInverse(new(big.Int).Mod(r, ref.BnN), ref.BnN)
					if k == nil {
						k = I(1)
					}
					hk = k.Mul(k, x)
					if kind == 3 {
						hk.Neg(hk)
					}
					hk.Mod(hk, ref.BnN)
				}
				h := new(bn256.G2).ScalarBaseMult(hk)
				if c.R.Bool() {
					h, _ = new(bn256.G2).Unmarshal(h.Marshal())
				}
				if h == nil {
					c.Fail("cannot decode G2^%s", hk)
					continue
				}
				before := fmt.Sprintf("%x", h.Marshal())
				e := new(big.Int).Add(x, new(big.Int).Mul(r, hk))
				want := ref.BnG2.Mul(e.Mod(e, ref.BnN))
				xx, rr := new(big.Int).Set(x), new(big.Int).Set(r)
				var got *bn256.G2
				var err error
				if p := Call(func() { got, err = util.Commit(xx, rr, h) }); p != nil || err != nil {
					c.Fail("Commit(%s,%s,G2^%s): %v %v", x, r, hk, err, p)
					continue
				}
				c.Eval("G2", kind, x.Sign(), r.Sign(), x.Cmp(ref.BnN), r.Cmp(ref.BnN), want.Inf)
				c.Count("commitments compared")
				if fmt.Sprintf("%x", got.Marshal()) != g2Bytes(want) {
					c.Fail("Commit(%s, %s, G2^%s) is wrong", x, r, hk)
				}
				if xx.Cmp(x) != 0 || rr.Cmp(r) != 0 || fmt.Sprintf("%x", h.Marshal()) != before {
					c.Fail("Commit(%s,%s,G2^%s) changed its arguments", x, r, hk)
				}
				x2, r2 := c.R.Scalar(ref.BnN), c.R.Scalar(ref.BnN)
				g2, _ := util.Commit(x2, r2, h)
				g3, _ := util.Commit(new(big.Int).Add(x, x2), new(big.Int).Add(r, r2), h)
				if s := new(bn256.G2).Add(got, g2); fmt.Sprintf("%x", s.Marshal()) != fmt.Sprintf("%x", g3.Marshal()) {
					c.Fail("Commit is not homomorphic: (%s,%s)+(%s,%s), h=G2^%s", x, r, x2, r2, hk)
				}
			}
		}},
	},
}

// g2Bytes is the encoding of a model point (infinity is all zeros).
func g2Bytes(p ref.Pt2) string {
	b := make([]byte, 128)
	if !p.Inf {
		p.X.B.FillBytes(b[0:32])
		p.X.A.FillBytes(b[32:64])
		p.Y.B.FillBytes(b[64:96])
		p.Y.A.FillBytes(b[96:128])
	}
	return fmt.Sprintf("%x", b)
}

func main() { Main([]Prop{p18, p19, p20, p21}) }
