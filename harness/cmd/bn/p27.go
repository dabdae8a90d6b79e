package main

import (
	"fmt"
	"math/big"

	bb "github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	. "verif/harness/core"
	"verif/harness/ref"
)

func accept(c *C, sig *bn256.G2, m *big.Int, pk *bn256.G1) (ok bool) {
	if p := Call(func() { ok, _ = bb.VerifVerify(sig, m, pk) }); p != nil {
		// an undefined key or signature may be refused this way, a panic is no acceptance
		c.Count("verify panicked")
		return false
	}
	c.Count("verifications judged")
	return ok
}

var p27 = Prop{
	ID:   "P27",
	Rule: "keys from Keygen (uniform and extreme random draws) and chosen keys, hostile integer messages; the signature is compared with the model, and verified for the message, congruent messages, other messages, other keys, altered signatures; the unsignable message of each key. Distinct: classes of key and message, kind of alteration, verdict.",
	Min:  40,
	Suites: []Suite{
		{"sign", 120, 2000, func(c *C) {
			mode := c.R.Intn(2)
			c.Install(mode, ref.BnN)
			var kp bb.Keypair
			var err error
			if p := Call(func() { kp, err = bb.Keygen() }); p != nil || err != nil || kp.Privk == nil || kp.Pubk == nil {
				c.Fail("Keygen failed: %v %v", err, p)
				return
			}
			if kp.Privk.Sign() < 0 || kp.Privk.Cmp(ref.BnN) >= 0 {
				c.Fail("private key %s is out of range", kp.Privk)
			}
			if fmt.Sprintf("%x", kp.Pubk.Marshal()) != (g1{}).model(kp.Privk) {
				c.Fail("public key is not g1^%s", kp.Privk)
			}
			sk := new(big.Int).Set(kp.Privk)
			m := c.R.Scalar(ref.BnN)
			switch c.R.Intn(6) {
			case 0:
				m = I(int64(c.R.Uint64()))
			case 1: // close to the unsignable message
				m = new(big.Int).Sub(I(int64(c.R.Intn(3)-1)), sk)
			case 2:
				m = new(big.Int).Sub(ref.BnN, sk)
				m.Add(m, I(int64(c.R.Intn(3)-1)))
			}
			e := new(big.Int).Add(m, sk)
			e.Mod(e, ref.BnN)
			inv := new(big.Int).ModInverse(e, ref.BnN)
			mm := new(big.Int).Set(m)
			var sig *bn256.G2
			if p := Call(func() { sig, err = bb.Sign(mm, kp.Privk) }); p != nil {
				c.Fail("Sign(%s, %s): %v", m, sk, p)
				return
			}
			if mm.Cmp(m) != 0 || kp.Privk.Cmp(sk) != 0 {
				c.Fail("Sign changed its arguments")
			}
			c.Eval("sign", mode, m.Sign(), inv == nil, m.Cmp(ref.BnN), sk.BitLen()/8)
			c.Count("signatures judged")
			if inv == nil {
				if err == nil {
					c.Fail("Sign(%s, %s) gives a signature of a message that has none", m, sk)
				}
				return
			}
			if err != nil || sig == nil {
				c.Fail("Sign(%s, %s): %v", m, sk, err)
				return
			}
			if fmt.Sprintf("%x", sig.Marshal()) != (g2{}).model(inv) {
				c.Fail("Sign(%s, %s) is not g2^(1/(m+sk))", m, sk)
			}
			if !accept(c, sig, m, kp.Pubk) {
				c.Fail("verify rejects the signature of %s with key %s", m, sk)
			}
			for _, d := range []int64{-2, -1, 1, 3} {
				m2 := new(big.Int).Add(m, new(big.Int).Mul(ref.BnN, I(d)))
				c.Eval("congruent", d, m2.Sign())
				if !accept(c, sig, m2, kp.Pubk) {
					c.Fail("verify rejects the signature of %s for the congruent message %s", m, m2)
				}
				if d == 1 || d == -1 {
					s2, err := bb.Sign(m2, sk)
					if err != nil || fmt.Sprintf("%x", s2.Marshal()) != fmt.Sprintf("%x", sig.Marshal()) {
						c.Fail("signatures of congruent messages %s and %s differ", m, m2)
					}
				}
			}
			// other messages
			others := map[string]*big.Int{
				"+1": new(big.Int).Add(m, I(1)), "-1": new(big.Int).Sub(m, I(1)), "neg": expNeg(m), "double": new(big.Int).Lsh(m, 1),
				"unsignable": expNeg(sk), "reflected": new(big.Int).Neg(new(big.Int).Add(m, new(big.Int).Lsh(sk, 1))),
				"zero": I(0), "one": I(1), "random": c.R.Below(ref.BnN),
			}
			for name, o := range others {
				diff := new(big.Int).Sub(o, m)
				if diff.Mod(diff, ref.BnN).Sign() == 0 {
					continue
				}
				c.Eval("other message", name, o.Sign())
				if accept(c, sig, o, kp.Pubk) {
					c.Fail("verify accepts the signature of %s for %s (%s), key %s", m, o, name, sk)
				}
			}
			// other keys
			for _, d := range []*big.Int{I(1), I(-1), new(big.Int).Neg(new(big.Int).Lsh(sk, 1)), c.R.Below(ref.BnN), expNeg(sk)} {
				if new(big.Int).Mod(d, ref.BnN).Sign() == 0 {
					continue
				}
				pk := new(bn256.G1).ScalarBaseMult(new(big.Int).Mod(new(big.Int).Add(sk, d), ref.BnN))
				c.Eval("other key", d.Sign())
				if accept(c, sig, m, pk) {
					c.Fail("verify accepts the signature of %s by %s for the key %s+%s", m, sk, sk, d)
				}
			}
			// altered signatures
			inf := new(bn256.G2).SetInfinity()
			g := new(bn256.G2).ScalarBaseMult(I(1))
			alt := map[string]*bn256.G2{
				"neg": new(bn256.G2).Neg(sig), "double": new(bn256.G2).Add(sig, sig), "plus g": new(bn256.G2).Add(sig, g),
				"identity": inf, "generator": g, "multiple": new(bn256.G2).ScalarMult(sig, c.R.Below(ref.BnN)),
			}
			for name, s := range alt {
				if fmt.Sprintf("%x", s.Marshal()) == fmt.Sprintf("%x", sig.Marshal()) {
					continue
				}
				c.Eval("altered", name)
				if accept(c, s, m, kp.Pubk) {
					c.Fail("verify accepts an altered signature (%s) of %s by %s", name, m, sk)
				}
			}
			// and still accepts the original, in any representation
			re := element(c, g2{}, inv, c.R.Intn(nReps)).(*bn256.G2)
			if !accept(c, re, m, kp.Pubk) || !accept(c, sig, m, kp.Pubk) {
				c.Fail("verify does not always accept the signature of %s by %s", m, sk)
			}
			pj := g1el(c, sk, c.R.Intn(nReps))
			if !accept(c, sig, m, pj) {
				c.Fail("verify depends on the representation of the key (%s, %s)", m, sk)
			}
			c.Sample("message %s key %s", m, sk)
		}},
		{"chosen keys", 48, 500, func(c *C) {
			ks := []*big.Int{I(0), I(1), I(2), new(big.Int).Sub(ref.BnN, I(1)), new(big.Int).Rsh(ref.BnN, 1), Pow2(200), c.R.Bits(64)}
			sk := ks[c.Idx%len(ks)]
			pk := g1el(c, sk, c.R.Intn(nReps))
			for _, m := range []*big.Int{I(0), I(1), I(-1), expNeg(sk), new(big.Int).Sub(ref.BnN, sk), I(-9223372036854775808), I(9223372036854775807)} {
				e := new(big.Int).Add(m, sk)
				un := e.Mod(e, ref.BnN).Sign() == 0
				var sig *bn256.G2
				var err error
				p := Call(func() { sig, err = bb.Sign(m, sk) })
				c.Eval("chosen", c.Idx%len(ks), m.Sign(), un)
				c.Count("signatures judged")
				if p != nil || (err != nil) != un {
					c.Fail("Sign(%s, %s): %v %v", m, sk, err, p)
					continue
				}
				if !un {
					if !accept(c, sig, m, pk) {
						c.Fail("verify rejects the signature of %s with key %s", m, sk)
					}
					if accept(c, sig, new(big.Int).Add(m, I(1)), pk) {
						c.Fail("verify accepts the signature of %s for the next message, key %s", m, sk)
					}
				}
			}
		}},
		{"distinct keys", 8, 40, func(c *C) {
			seen := map[string]bool{}
			for i := 0; i < 20; i++ {
				kp, err := bb.Keygen()
				if err != nil {
					c.Fail("Keygen: %v", err)
					return
				}
				c.Eval("key", c.Idx, i)
				if seen[kp.Privk.String()] {
					c.Fail("Keygen returned the key %s twice", kp.Privk)
				}
				seen[kp.Privk.String()] = true
			}
		}},
	},
}

func main() { Main([]Prop{p22, p23, p24, p25, p26, p27, p36, p43}) }
