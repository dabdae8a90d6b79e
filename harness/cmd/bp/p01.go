package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

func complete(c *C, x *big.Int, p params, mode string) *proof {
	before := new(big.Int).Set(x)
	arg := new(big.Int).Set(x)
	var pr proof
	var err error
	if e := Call(func() { pr, err = bulletproofs.Prove(arg, p) }); e != nil || err != nil {
		c.Fail("Prove(%s) for [0,2^%d), %s randomness: %v %v", x, p.N, mode, err, e)
		return nil
	}
	if arg.Cmp(before) != 0 {
		c.Fail("Prove changed the secret %s to %s", before, arg)
	}
	o := verify(&pr)
	c.Eval("complete", p.N, shape(x), mode)
	c.Count("proofs verified")
	if !o.Accepted() || o.Err != nil {
		c.Fail("the proof of %s for [0,2^%d) made with %s randomness does not verify: %s", x, p.N, mode, o)
	}
	return &pr
}

var p01 = Prop{
	ID:   "P01",
	Rule: "every secret for N=1,2,4,8 and structured secrets (0, ends, powers of two, runs, alternating) and random ones for N=16,32; uniform, extreme and constant random draws; 32-bit numbers of one and two digits, complements and byte patterns; several and hundreds of proofs from one parameter value, verified later and in another order. Distinct: (N, bit length and weight of the secret, kind of randomness).",
	Min:  60,
	Suites: []Suite{
		{"every secret", 60, 400, func(c *C) {
			// 2+4+16+256 secrets, split over the cases
			all := 2 + 4 + 16 + 256
			ps := map[int]params{}
			for _, n := range []int{1, 2, 4, 8} {
				p, ok := setup(c, n)
				if !ok {
					return
				}
				ps[n] = p
			}
			k := 0
			for _, n := range []int{1, 2, 4, 8} {
				for x := 0; x < 1<<n; x++ {
					if k++; k%all%60 == c.Idx%60 {
						mode := randMode(c, c.Idx/60+k)
						complete(c, I(int64(x)), ps[n], mode)
						c.Count("exhaustive secrets")
					}
				}
			}
		}},
		{"structured", 96, 1200, func(c *C) {
			n := []int{32, 16, 32, 8}[c.Idx%4]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			for k := 0; k < 2; k++ {
				mode := randMode(c, c.Idx/4+k)
				x := secretsFor(c.R, n, c.Idx/4+7*k)
				complete(c, x, p, mode)
				c.Sample("N=%d secret %s %s", n, x, mode)
			}
		}},
		{"patterns", 64, 64, func(c *C) {
			p, ok := setup(c, 32)
			if !ok {
				return
			}
			for k, x := range patterns32() {
				if k%64 == c.Idx {
					complete(c, x, p, randMode(c, c.R.Intn(5)))
					c.Count("bit patterns of 32 bits")
				}
			}
		}},
		{"long", 8, 48, func(c *C) {
			// many proofs from one parameter value; the rare challenges occur in them, too
			n := []int{1, 2, 1, 4}[c.Idx%4]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			before := Digest(&p)
			var early []*proof
			for k := 0; k < 600/n; k++ {
				mode := randMode(c, c.R.Intn(16))
				if pr := complete(c, c.R.Bits(n), p, mode); pr != nil && k < 3 {
					early = append(early, pr)
				}
			}
			if Digest(&p) != before {
				c.Fail("making proofs changed the parameters of [0,2^%d)", n)
			}
			for _, pr := range early {
				if o := verify(pr); !o.Accepted() || o.Err != nil {
					c.Fail("an early proof for [0,2^%d) does not verify after many others: %s", n, o)
				}
			}
			c.Eval("long", n)
		}},
		{"extreme randomness", 72, 600, func(c *C) {
			n := sizes[c.Idx%5]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			for k := 0; k < 6; k++ {
				mode := randMode(c, 5+k%3)
				complete(c, secretsFor(c.R, n, c.Idx+k), p, mode)
			}
		}},
		{"reuse", 24, 200, func(c *C) {
			n := sizes[c.Idx%5]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			before := Digest(&p)
			var prs []*proof
			var xs []*big.Int
			for k := 0; k < 6; k++ {
				x := secretsFor(c.R, n, c.R.Intn(12))
				if pr := prove(c, x, p); pr != nil {
					prs, xs = append(prs, pr), append(xs, x)
				}
			}
			if Digest(&p) != before {
				c.Fail("making proofs changed the parameters of [0,2^%d)", n)
			}
			for round := 0; round < 2; round++ {
				for _, i := range c.R.Perm(len(prs)) {
					o := verify(prs[i])
					c.Eval("reuse", n, i, round)
					c.Count("proofs verified")
					if !o.Accepted() || o.Err != nil {
						c.Fail("proof %d of %d made from one parameter value (N=%d, secret %s) does not verify in round %d: %s", i, len(prs), n, xs[i], round, o)
					}
				}
			}
		}},
	},
}

// patterns32 lists 32-bit numbers with one or two digits set, their neighbours and
// complements, byte patterns and powers of ten.
func patterns32() []*big.Int {
	var out []*big.Int
	seen := map[int64]bool{}
	put := func(v int64) {
		if v >= 0 && v < 1<<32 && !seen[v] {
			seen[v] = true
			out = append(out, I(v))
		}
	}
	for i := 0; i <= 32; i++ {
		v := int64(1) << i
		put(v - 1)
		put(v)
		put(v + 1)
		put(1<<32 - v)
		put(1<<32 - 1 - v)
		put(1<<32 - 2 - v)
		for j := 0; j < i; j++ {
			put(v + 1<<j)
			if (i+j)%3 == 0 {
				put(v - 1<<j)
			}
		}
	}
	bytes := []int64{0x00, 0x01, 0x7f, 0x80, 0xff}
	for k := 0; k < 625; k += 7 {
		v := int64(0)
		for q, i := k, 0; i < 4; i, q = i+1, q/5 {
			v = v<<8 | bytes[q%5]
		}
		put(v)
	}
	for v := int64(1); v < 1<<32; v *= 10 {
		put(v)
		put(v - 1)
	}
	return out
}

// outside returns a secret outside [0,2^n).
func outside(r *Rng, n, k int) *big.Int {
	e := Pow2(n)
	j := I(int64(r.Intn(5)))
	add := func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
	ng := func(a *big.Int) *big.Int { return new(big.Int).Neg(a) }
	switch k % 20 {
	case 0:
		return new(big.Int).Set(e)
	case 1:
		return add(e, I(1))
	case 2:
		return I(-1)
	case 3:
		return add(e, r.Bits(n))
	case 4:
		return ng(add(r.Bits(n), I(1)))
	case 5:
		return ng(e)
	case 6:
		return add(Pow2(n+r.Intn(40)), r.Bits(n))
	case 7:
		return new(big.Int).Mul(e, add(I(1), r.Bits(20)))
	case 8:
		return add(new(big.Int).Lsh(e, 1), I(-1))
	case 9:
		return add(ref.SecN, ng(add(j, I(1)))) // congruent to a small negative number
	case 10:
		return add(add(ref.SecN, e), j)
	case 11:
		return ng(add(ref.SecN, add(j, I(1))))
	case 12:
		return add(Pow2(64), r.Bits(n))
	case 13:
		return add(Pow2(255), r.Bits(n))
	case 14:
		return ng(Pow2(n + r.Intn(230)))
	case 15:
		return ng(add(e, r.Bits(n)))
	case 16:
		return add(Pow2(256), r.Bits(n))
	case 17:
		return r.Below(ref.SecN)
	case 18:
		return r.Bits(600)
	default:
		return add(Pow2(32), r.Bits(n))
	}
}

func congruentInside(x *big.Int, n int) bool { return ModN(x).Cmp(Pow2(n)) < 0 }

var p02 = Prop{
	ID:   "P02",
	Rule: "secrets outside [0,2^N): next to both ends, multiples of 2^N, in-range values plus powers of two, negatives, around (multiples of) the group order, huge; every secret in [-2^N,3*2^N) outside the range for N<=4; uniform and extreme randomness. Oracle: Prove refuses or Verify does not return true. Distinct: (N, kind of secret, bit length, sign, refusal or rejection).",
	Min:  60,
	Suites: []Suite{
		{"outside", 720, 9000, func(c *C) {
			n := sizes[c.Idx%6]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			per := 4
			if n >= 16 {
				per = 2
			}
			for k := 0; k < per; k++ {
				kind := c.Idx/6 + k*40
				if k > 0 {
					kind = c.R.Intn(20)
				}
				x := outside(c.R, n, kind)
				if congruentInside(x, n) {
					continue
				}
				mode := randMode(c, c.R.Intn(12))
				never(c, x, p, kind%20, mode)
			}
		}},
		{"neighbourhood", 30, 120, func(c *C) {
			n := []int{1, 2, 4}[c.Idx%3]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			e := int64(1) << n
			for x := -2 * e; x < 4*e; x++ {
				if (x >= 0 && x < e) || int(x+2*e)%10 != c.Idx/3%10 {
					continue
				}
				never(c, I(x), p, 100, randMode(c, 0))
				c.Count("exhaustive secrets")
			}
		}},
	},
}

func never(c *C, x *big.Int, p params, kind int, mode string) {
	pr, why := tryProve(x, p)
	if pr == nil {
		c.Eval("refused", p.N, kind, why)
		c.Count("refused by Prove")
		return
	}
	o := verify(pr)
	c.Eval("rejected", p.N, kind, x.Sign(), x.BitLen(), o.Kind())
	c.Count("rejected by Verify")
	if o.Accepted() {
		c.Fail("the proof of %s for [0,2^%d) verifies (%s randomness)", x, p.N, mode)
	}
	c.Sample("N=%d secret %s: %s", p.N, x, o)
}

func bounds(r *Rng, k int) (a, b int64) {
	w := func() int64 {
		switch r.Intn(7) {
		case 0:
			return 1
		case 1:
			return 2
		case 2:
			return 1 << 32
		case 3:
			return 1<<32 - 1
		case 4:
			return int64(1) << r.Intn(33)
		case 5:
			return r.Int64()&(1<<32-1) + 1
		}
		return int64(r.Intn(1000) + 1)
	}()
	const max, min = int64(9223372036854775807), int64(-9223372036854775808)
	switch k % 10 {
	case 0:
		return 0, w
	case 1:
		return -w, 0
	case 2:
		return min, min + w
	case 3:
		return max - w, max
	case 4:
		return -w / 2, -w/2 + w
	case 5:
		return 1 << 32, 1<<32 + w
	case 6:
		return -1, w - 1
	case 7:
		a = r.Int64()
		if a > max-w {
			a = max - w
		}
		return a, a + w
	case 8:
		return 18, 18 + w
	default: // empty
		a = r.Int64()
		return a, a
	}
}

func bi(a int64) *big.Int { return big.NewInt(a) }

var p03 = Prop{
	ID:   "P03",
	Rule: "intervals (negative, extreme int64 bounds, widths 0, 1, 2, powers of two, 2^32-1, 2^32, wider, inverted) and secrets a-1, a, b-1, b, inside, a+2^32 and b-2^32 and neighbours, congruent modulo 2^32, far away. Oracle: interval arithmetic on integers. Distinct: (class of interval, width, class of secret, expected verdict).",
	Min:  60,
	Suites: []Suite{
		{"intervals", 72, 900, func(c *C) {
			a, b := bounds(c.R, c.Idx)
			var g *zk.Generic
			var err error
			if e := Call(func() { g, err = zk.SetupGeneric(a, b) }); e != nil || err != nil {
				c.Fail("SetupGeneric(%d,%d): %v %v", a, b, err, e)
				return
			}
			e32 := Pow2(32)
			add := func(x *big.Int, y int64) *big.Int { return new(big.Int).Add(x, bi(y)) }
			in := new(big.Int).Sub(bi(b), bi(a))
			inside := bi(a)
			if in.Sign() > 0 {
				inside = new(big.Int).Add(bi(a), c.R.Below(in))
			}
			sec := map[string]*big.Int{
				"a-1": add(bi(a), -1), "a": bi(a), "b-1": add(bi(b), -1), "b": bi(b), "inside": inside,
			}
			more := map[string]*big.Int{
				"a+2^32": new(big.Int).Add(bi(a), e32), "a+2^32-1": add(new(big.Int).Add(bi(a), e32), -1),
				"b-2^32": new(big.Int).Sub(bi(b), e32), "b-2^32-1": add(new(big.Int).Sub(bi(b), e32), -1),
				"b+2^32": new(big.Int).Add(bi(b), e32), "inside+2^32": new(big.Int).Add(inside, e32), "inside-2^32": new(big.Int).Sub(inside, e32),
				"b+1": add(bi(b), 1), "-inside": new(big.Int).Neg(inside), "far": c.R.Scalar(ref.SecN), "0": I(0), "a+1": add(bi(a), 1),
				"inside+2^64": new(big.Int).Add(inside, Pow2(64)), "a-2^31": new(big.Int).Sub(bi(a), Pow2(31)),
			}
			names := []string{}
			for k := range more {
				names = append(names, k)
			}
			sortStrings(names)
			for i, j := range c.R.Perm(len(names)) {
				if i < 3 {
					sec[names[j]] = more[names[j]]
				}
			}
			names = names[:0]
			for k := range sec {
				names = append(names, k)
			}
			sortStrings(names)
			for _, k := range names {
				x := sec[k]
				want := x.Cmp(bi(a)) >= 0 && x.Cmp(bi(b)) < 0
				if !want { // congruent modulo the group order to a secret inside?
					d := new(big.Int).Sub(x, bi(a))
					if d.Mod(d, ref.SecN).Cmp(in) < 0 {
						continue
					}
				}
				mode := randMode(c, c.R.Intn(16))
				var pr generic
				var err error
				arg := new(big.Int).Set(x)
				e := Call(func() { pr, err = g.Prove(arg) })
				if arg.Cmp(x) != 0 {
					c.Fail("ProveGeneric changed the secret %s to %s", x, arg)
				}
				if e != nil || err != nil {
					c.Count("refused by ProveGeneric")
					if want {
						c.Fail("ProveGeneric(%s) for [%d,%d): %v %v", x, a, b, err, e)
					}
					continue
				}
				o := verifyG(pr)
				c.Eval("interval", c.Idx%10, in.BitLen(), k, want)
				c.Count(fmt.Sprintf("verdict %v", want))
				if o.Accepted() != want || (want && o.Err != nil) {
					c.Fail("secret %s (%s) for [%d,%d): verification says %s, expected %v (%s randomness)", x, k, a, b, o, want, mode)
				}
			}
			c.Sample("[%d,%d)", a, b)
		}},
		{"unsupported", 400, 5000, func(c *C) {
			a, b := c.R.Int64(), c.R.Int64()
			const max, min = int64(9223372036854775807), int64(-9223372036854775808)
			switch c.Idx % 8 {
			case 0:
				a = int64(c.R.Intn(1000)) - 500
				b = a - 1 - int64(c.R.Intn(100))
			case 1:
				a, b = min, max
			case 2:
				a, b = max, min
			case 3:
				a = c.R.Int64() >> 2
				b = a + 1<<32 + 1 + int64(c.R.Intn(3))
			case 4:
				a = c.R.Int64() >> 2
				b = a + (1<<32)<<c.R.Intn(28) + 1<<32
			case 5:
				a, b = min+int64(c.R.Intn(5)), int64(c.R.Intn(5))
			case 6:
				a = c.R.Int64() >> 1
				b = a + 1<<32 - 1 + int64(c.R.Intn(3))
			}
			w := new(big.Int).Sub(bi(b), bi(a))
			bad := w.Sign() < 0 || w.Cmp(Pow2(32)) > 0
			var err error
			e := Call(func() { _, err = zk.SetupGeneric(a, b) })
			c.Eval("setup", c.Idx%8, bad, w.BitLen(), w.Sign())
			c.Count(fmt.Sprintf("unsupported interval: %v", bad))
			if e != nil || (err != nil) != bad {
				c.Fail("SetupGeneric(%d,%d): error %v, panic %v; the width %s is unsupported: %v", a, b, err, e, w, bad)
			}
		}},
	},
}
