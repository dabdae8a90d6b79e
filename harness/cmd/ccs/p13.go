package main

import (
	"fmt"
	"math/big"

	. "verif/harness/core"
	"verif/harness/zk"
)

func ivSetup(iv *zk.Interval, a, b int64) (err error, pan any) {
	pan = Call(func() { err = iv.Setup(a, b) })
	return
}

// bounds picks intervals.
func bounds(r *Rng, k int) (a, b int64) {
	switch k % 12 {
	case 0:
		return 0, 2 + int64(r.Intn(60))
	case 1:
		return 18, 200
	case 2:
		a = int64(r.Intn(1000))
		return a, a + int64(r.Intn(1000)) + 2
	case 3:
		a = -int64(r.Intn(1000)) - 1
		return a, int64(r.Intn(1000)) + 2
	case 4:
		b = -int64(r.Intn(1000)) - 1
		return b - int64(r.Intn(1000)) - 1, b
	case 5: // b is a power of u
		b = []int64{57, 57 * 57, 57 * 57 * 57}[r.Intn(3)]
		return int64(r.Intn(int(b))), b + int64(r.Intn(3)) - 1
	case 6: // b - a is a power of u
		w := []int64{57, 57 * 57, 57 * 57 * 57}[r.Intn(3)]
		a = -int64(r.Intn(int(w)))
		return a, a + w + int64(r.Intn(3)) - 1
	case 7:
		a = int64(r.Intn(1 << 30))
		return a, a + int64(r.Intn(3)) // empty and tiny
	case 8:
		b = int64(1)<<uint(32+r.Intn(31)) - int64(r.Intn(2))
		return b - int64(r.Intn(1<<20)) - 1, b
	case 9:
		a = -(int64(1) << uint(20+r.Intn(20)))
		return a, int64(r.Intn(1000)) + 2
	case 10:
		a = int64(r.Uint64() >> 24)
		return a, a + int64(r.Uint64()>>30)
	}
	a = int64(r.Intn(100))
	return a, a + 2 + int64(r.Intn(5000))
}

func ivSecret(r *Rng, a, b int64, k int) (string, *big.Int) {
	A, B := I(a), I(b)
	switch k % 12 {
	case 0:
		return "a", A
	case 1:
		return "b-1", new(big.Int).Sub(B, I(1))
	case 2:
		return "a-1", new(big.Int).Sub(A, I(1))
	case 3:
		return "b", B
	case 4:
		return "b+1", new(big.Int).Add(B, I(1))
	case 5:
		return "-a", new(big.Int).Neg(A)
	case 6:
		return "0", I(0)
	case 7:
		return "far above", new(big.Int).Add(B, r.Bits(70))
	case 8:
		return "far below", new(big.Int).Sub(A, r.Bits(70))
	case 9:
		return "a+order", new(big.Int).Add(A, new(big.Int).Add(order, I(1)))
	case 10:
		return "2^63", Pow2(63 + r.Intn(2))
	}
	if b <= a {
		return "a", A
	}
	return "inside", new(big.Int).Add(A, r.Below(new(big.Int).Sub(B, A)))
}

func ivRun(c *C, iv *zk.Interval, a, b int64, times, from int) {
	for t := 0; t < times; t++ {
		xc, x := ivSecret(c.R, a, b, from+t)
		rc, r := blinding(c.R)
		valid := x.Cmp(I(a)) >= 0 && x.Cmp(I(b)) < 0
		// congruent to a value inside
		inside := func(v *big.Int) bool { return v.Cmp(I(a)) >= 0 && v.Cmp(I(b)) < 0 }
		m := modN(x)
		judge := valid || (!inside(m) && !inside(new(big.Int).Sub(m, order)))
		var err error
		pan := Call(func() { err = iv.Prove(new(big.Int).Set(x), new(big.Int).Set(r)) })
		if err != nil || pan != nil {
			if valid {
				c.Fail("[%d,%d): Prove(%s, %s): %v %v", a, b, x, r, err, pan)
			}
			c.Eval("refused", xc)
			continue
		}
		if !judge {
			c.Count("outside, but congruent to a value inside: not judged")
			continue
		}
		o := zk.Do(func() (bool, error) { return iv.Verify() })
		if valid && (!o.Accepted() || o.Err != nil) {
			c.Fail("[%d,%d): valid proof of %s with blinding %s: %s", a, b, x, r, o)
		}
		if !valid && o.Accepted() {
			c.Fail("[%d,%d): proof of %s, which is outside, is accepted", a, b, x)
		}
		c.Eval(I(b).BitLen()/8, a < 0, b < 0, xc, rc, valid)
		c.Count(map[bool]string{true: "inside, verified", false: "outside, rejected"}[valid])
		c.Sample("[%d,%d) x=%s r=%s: %s", a, b, x, r, o)
		if c.R.Intn(3) == 0 {
			// another proof of the secret that was put in before
			if pan := Call(func() { err = iv.V.Z.Prove() }); err != nil || pan != nil {
				if valid {
					c.Fail("[%d,%d): second proof of %s: %v %v", a, b, x, err, pan)
				}
				continue
			}
			o := zk.Do(func() (bool, error) { return iv.Verify() })
			if valid && (!o.Accepted() || o.Err != nil) {
				c.Fail("[%d,%d): second valid proof of %s with blinding %s: %s", a, b, x, r, o)
			}
			if !valid && o.Accepted() {
				c.Fail("[%d,%d): second proof of %s, which is outside, is accepted", a, b, x)
			}
			c.Eval("second proof", valid)
			c.Count("second proofs of an input")
		}
	}
}

var p13 = Prop{
	ID:   "P13",
	Rule: "intervals with positive, negative, tiny, empty, large bounds and bounds at powers of the base; secrets at and around both bounds, far away, around 2^63 and the group order, hostile blindings; Prove then Verify must agree with a <= x < b; Setup with a > b must fail. Distinct: interval class, class of secret and blinding.",
	Min:  60,
	Suites: []Suite{
		{"intervals", 48, 900, func(c *C) {
			a, b := bounds(c.R, c.Idx)
			iv := zk.NewInterval()
			err, pan := ivSetup(iv, a, b)
			if pan != nil {
				c.Fail("Setup(%d,%d): %v", a, b, pan)
				return
			}
			if err != nil {
				c.Count("setup refused an interval")
				c.Eval("setup refused", b)
				if a >= 0 && b >= 2 && a <= b {
					c.Fail("Setup(%d,%d): %v", a, b, err)
				}
				return
			}
			c.Count("intervals set up")
			times := 6
			if I(b).BitLen() > 24 {
				times = 3
			}
			ivRun(c, iv, a, b, times, c.R.Intn(12))
		}},
		{"small and extreme ends", 30, 240, func(c *C) {
			// every small b, then the largest ones, in increasing order
			a, b := int64(0), int64(2+c.Idx)
			if c.Tier == "quick" && c.Idx >= 18 || c.Idx >= 200 {
				ext := []int64{1<<63 - 1, 1<<63 - 2, 1 << 62, 1<<53 + 1, 1<<32 + 1, 1 << 31}
				b = ext[c.Idx%len(ext)]
			}
			switch c.R.Intn(4) {
			case 0:
				a = b - 1
			case 1:
				a = int64(c.R.Uint64()>>1) % b
			case 2:
				a = -int64(c.R.Intn(3))
			}
			iv := zk.NewInterval()
			err, pan := ivSetup(iv, a, b)
			if pan != nil || (err != nil && a >= 0) {
				c.Fail("Setup(%d,%d): %v %v", a, b, err, pan)
				return
			}
			if err != nil {
				c.Count("setup refused an interval")
				return
			}
			c.Eval("small or extreme end", b)
			ivRun(c, iv, a, b, 2, c.R.Intn(12))
		}},
		{"powers of the base", 30, 90, func(c *C) {
			// u^k has one digit more than u^k - 1; with both bounds positive, or the width a power
			w := int64(1)
			for i := 0; i <= c.Idx%10; i++ {
				w *= 57
			}
			a, b := int64(0), w+int64(c.Idx/10%3)-1
			if c.Thorough() && c.Idx >= 30 {
				a = -int64(c.R.Uint64()>>1) % w
				b += a
			}
			if b < 2 {
				return
			}
			iv := zk.NewInterval()
			if err, pan := ivSetup(iv, a, b); err != nil || pan != nil {
				if a == 0 || pan != nil {
					c.Fail("Setup(%d,%d): %v %v", a, b, err, pan)
				}
				return
			}
			ivRun(c, iv, a, b, 1, 1)
			if c.Thorough() {
				ivRun(c, iv, a, b, 4, 0)
			}
		}},
		{"a > b", 200, 2000, func(c *C) {
			a, b := hostileInt64(c.R), hostileInt64(c.R)
			if c.R.Bool() {
				b = a - 1 - int64(c.R.Intn(100))
			}
			if a < b {
				a, b = b, a
			}
			if a == b {
				return
			}
			iv := zk.NewInterval()
			err, pan := ivSetup(iv, a, b)
			if pan != nil || err == nil {
				c.Fail("Setup(%d,%d) with a > b: error %v %v", a, b, err, pan)
			}
			c.Eval("a > b", sizeClass(a), sizeClass(b))
			c.Count("intervals with a > b refused")
		}},
		{"reuse", 8, 100, func(c *C) {
			// one value is set up and used for several intervals in turn
			iv := zk.NewInterval()
			for t := 0; t < 3; t++ {
				a, b := bounds(c.R, []int{0, 1, 2, 3, 5, 11}[c.R.Intn(6)])
				if err, pan := ivSetup(iv, a, b); err != nil || pan != nil {
					c.Count("setup refused an interval")
					continue
				}
				ivRun(c, iv, a, b, 2, c.R.Intn(12))
				c.Eval("reuse", t)
				if c.R.Bool() {
					if err, _ := ivSetup(iv, b, a); err == nil && a != b {
						c.Fail("Setup(%d,%d) with a > b: no error", b, a)
					}
				}
			}
		}},
	},
}

var _ = fmt.Sprint
