package main

import (
	"fmt"

	"github.com/ing-bank/zkrp/bulletproofs"
	. "verif/harness/core"
)

func setupJudge(c *C, b int64) {
	var p params
	var err error
	e := Call(func() { p, err = bulletproofs.Setup(b) })
	n := 0
	for _, k := range sizes {
		if b == int64(1)<<k {
			n = k
		}
	}
	c.Count(fmt.Sprintf("supported: %v", n > 0))
	c.Eval("setup", b, e != nil, err != nil)
	if e != nil {
		c.Fail("Setup(%d): %v", b, e)
		return
	}
	if n == 0 {
		if err == nil {
			c.Fail("Setup(%d) succeeds, with N=%d", b, p.N)
		}
		return
	}
	if err != nil {
		c.Fail("Setup(%d): %v", b, err)
		return
	}
	if p.N != int64(n) || len(p.Gg) != n || len(p.Hh) != n || p.G == nil || p.H == nil {
		c.Fail("Setup(%d): N=%d with %d and %d generators", b, p.N, len(p.Gg), len(p.Hh))
	}
	for i := range p.Gg {
		if p.Gg[i] == nil || (i < len(p.Hh) && p.Hh[i] == nil) {
			c.Fail("Setup(%d): generator %d is missing", b, i)
		}
	}
}

func powerJudge(c *C, x int64) {
	want := false
	for k := 0; k < 63; k++ {
		want = want || x == int64(1)<<k
	}
	var got bool
	e := Call(func() { got = bulletproofs.IsPowerOfTwo(x) })
	c.Eval("power", x>>56, want, popcountI(x))
	c.Count("IsPowerOfTwo judged")
	if e != nil || got != want {
		c.Fail("IsPowerOfTwo(%d) = %v (%v)", x, got, e)
	}
}

func popcountI(x int64) int {
	n := 0
	for i := 0; i < 64; i++ {
		n += int(uint64(x) >> i & 1)
	}
	return n
}

var p34 = Prop{
	ID:   "P34",
	Rule: "all powers of two, their neighbours, negations, sums and differences of two of them, -600..600, int64 extremes and random values for Setup; the same and many more for IsPowerOfTwo. Distinct: Setup arguments; (top byte, weight) for IsPowerOfTwo.",
	Min:  500,
	Suites: []Suite{
		{"Setup", 40, 200, func(c *C) {
			var l []int64
			for k := 0; k < 64; k++ {
				p := int64(1) << k
				for d := int64(-3); d <= 3; d++ {
					l = append(l, p+d, -p+d)
				}
				for j := 0; j < k; j++ {
					l = append(l, p+int64(1)<<j, p-int64(1)<<j)
				}
			}
			for i := int64(-600); i <= 600; i++ {
				l = append(l, i)
			}
			l = append(l, 9223372036854775807, -9223372036854775808)
			for i := range l {
				if i%40 == c.Idx%40 {
					setupJudge(c, l[i])
				}
			}
			for i := 0; i < 300; i++ {
				setupJudge(c, c.R.Int64()>>c.R.Intn(64))
			}
		}},
		{"IsPowerOfTwo", 16, 100, func(c *C) {
			for k := 0; k < 64; k++ {
				for d := int64(-2); d <= 2; d++ {
					powerJudge(c, int64(1)<<k+d)
					powerJudge(c, -(int64(1)<<k)+d)
				}
			}
			for i := int64(c.Idx)*1000 - 8000; i < int64(c.Idx)*1000-7000; i++ {
				powerJudge(c, i)
			}
			for i := 0; i < 2000; i++ {
				powerJudge(c, c.R.Int64()>>c.R.Intn(64))
				powerJudge(c, int64(1)<<c.R.Intn(64)|int64(1)<<c.R.Intn(64))
			}
		}},
	},
}
