package main

import (
	"crypto/rand"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	bb "github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

// randOp is an operation that draws randomness. prepare makes its inputs; run performs it
// on fresh copies of them and returns a pointer to what it made.
type randOp struct {
	name    string
	order   *big.Int
	need    int // full-range scalars the protocol needs
	prepare func(c *C) func() (any, error)
}

func bpOp(n int) randOp {
	return randOp{fmt.Sprintf("Prove 2^%d", n), ref.SecN, 5 + 2*n, func(c *C) func() (any, error) {
		p, _ := setup(c, n)
		x := secretsFor(c.R, n, c.R.Intn(20))
		return func() (any, error) {
			q := Clone(&p)
			pr, err := bulletproofs.Prove(new(big.Int).Set(x), *q)
			return &pr, err
		}
	}}
}

func genericOp(a, b int64) randOp {
	return randOp{fmt.Sprintf("ProveGeneric %d %d", a, b), ref.SecN, 1 + 2*(4+64), func(c *C) func() (any, error) {
		g, err := zk.SetupGeneric(a, b)
		if err != nil {
			c.Fail("SetupGeneric(%d,%d): %v", a, b, err)
			return nil
		}
		x := new(big.Int).Add(I(a), c.R.Below(new(big.Int).Sub(I(b), I(a))))
		return func() (any, error) {
			pr, err := g.Prove(new(big.Int).Set(x))
			return &pr, err
		}
	}}
}

func setupSetOp(s ...int64) randOp {
	return randOp{fmt.Sprint("SetupSet ", len(s)), ref.BnN, 1, func(c *C) func() (any, error) {
		return func() (any, error) {
			sys, err := zk.SetupSet(append([]int64(nil), s...))
			return sys.P, err
		}
	}}
}

func setupULOp(u, l int64) randOp {
	return randOp{fmt.Sprintf("SetupUL %d %d", u, l), ref.BnN, 1, func(c *C) func() (any, error) {
		return func() (any, error) {
			sys, err := zk.SetupUL(u, l)
			return sys.P, err
		}
	}}
}

func proveSetOp(s ...int64) randOp {
	return randOp{fmt.Sprint("ProveSet ", len(s)), ref.BnN, 3, func(c *C) func() (any, error) {
		sys, err := zk.SetupSet(append([]int64(nil), s...))
		if err != nil {
			c.Fail("SetupSet(%v): %v", s, err)
			return nil
		}
		x, r := s[c.R.Intn(len(s))], blinding(c)
		return func() (any, error) { return sys.Prove(x, new(big.Int).Set(r)) }
	}}
}

func proveULOp(u, l int64) randOp {
	return randOp{fmt.Sprintf("ProveUL %d %d", u, l), ref.BnN, 1 + 3*int(l), func(c *C) func() (any, error) {
		sys, err := zk.SetupUL(u, l)
		if err != nil {
			c.Fail("SetupUL(%d,%d): %v", u, l, err)
			return nil
		}
		top := new(big.Int).Exp(I(u), I(l), nil)
		x, r := c.R.Below(top), blinding(c)
		switch c.R.Intn(6) {
		case 0:
			x = I(0)
		case 1:
			x = top.Sub(top, I(1))
		}
		return func() (any, error) { return sys.Prove(new(big.Int).Set(x), new(big.Int).Set(r)) }
	}}
}

// blinding is a caller's blinding factor, which need not be good for the proof's own nonces to be.
func blinding(c *C) *big.Int {
	if c.R.Intn(4) == 0 {
		return I(int64(c.R.Intn(2)))
	}
	return c.R.Below(ref.BnN)
}

func keygenOp() randOp {
	return randOp{"Keygen", ref.BnN, 1, func(c *C) func() (any, error) {
		return func() (any, error) { k, err := bb.Keygen(); return &k, err }
	}}
}

type randomPoint struct {
	K  *big.Int
	G1 *bn256.G1
	G2 *bn256.G2
}

func randomOp(two bool, reader func() *Recorder) randOp {
	name := "RandomG1"
	if two {
		name = "RandomG2"
	}
	return randOp{name, ref.BnN, 1, func(c *C) func() (any, error) {
		return func() (any, error) {
			var o randomPoint
			var err error
			if two {
				o.K, o.G2, err = bn256.RandomG2(reader())
				if o.G2 == nil && err == nil {
					return nil, fmt.Errorf("nothing returned")
				}
			} else {
				o.K, o.G1, err = bn256.RandomG1(reader())
				if o.G1 == nil && err == nil {
					return nil, fmt.Errorf("nothing returned")
				}
			}
			return &o, err
		}
	}}
}

// intervalOp is Prove of the ccs08 interval scheme (two UL proofs).
func intervalOp(a, b int64) randOp {
	return randOp{fmt.Sprintf("ccs08 Prove %d %d", a, b), ref.BnN, 2 * (1 + 3), func(c *C) func() (any, error) {
		iv := zk.NewInterval()
		if err := iv.Setup(a, b); err != nil {
			c.Fail("ccs08.Setup(%d,%d): %v", a, b, err)
			return nil
		}
		x, r := new(big.Int).Add(I(a), c.R.Below(new(big.Int).Sub(I(b), I(a)))), c.R.Below(ref.BnN)
		return func() (any, error) {
			if e := iv.Prove(new(big.Int).Set(x), new(big.Int).Set(r)); e != nil {
				return nil, e
			}
			o, ok := Field(iv.V, "Z.proof_out")
			if !ok {
				return nil, fmt.Errorf("no proof")
			}
			return CloneAny(o.Addr().Interface()), nil
		}
	}}
}

// perform runs the operation with the recorder set up by conf.
func perform(c *C, label string, run func() (any, error), conf func(r *Recorder)) (out any, err error, pan any, rec *Recorder) {
	rec = c.InstallSeeded(label)
	current = rec
	if conf != nil {
		conf(rec)
	}
	pan = Call(func() { out, err = run() })
	return
}

// current is the recorder that RandomG1 and RandomG2 are given.
var current *Recorder

func theReader() *Recorder { return current }

// coreElements are the components of a proof that depend on fresh randomness.
func coreElements(x any) map[string]string {
	out := map[string]string{}
	for _, l := range Leaves(x) {
		if strings.Contains(l.Path, "Params") || strings.HasSuffix(l.Path, ".Gg") || strings.HasSuffix(l.Path, ".Hh") || strings.HasSuffix(l.Path, ".U") || strings.HasSuffix(l.Path, ".P") || strings.HasSuffix(l.Path, "Commit") {
			continue
		}
		v := l.Value()
		if strings.HasPrefix(v, "i") || strings.HasPrefix(v, "(") || strings.HasPrefix(v, "G") || v == "inf" {
			out[l.Path] = v
		}
	}
	return out
}

func runInfluence(c *C, op randOp, share, shares int) {
	run := op.prepare(c)
	if run == nil {
		return
	}
	out, err, pan, rec := perform(c, "base", run, nil)
	if err != nil || pan != nil {
		c.Fail("%s failed with a working random source: %v %v", op.name, err, pan)
		return
	}
	base := Digest(out)
	full := rec.FullReads(op.order)
	drawn := len(full) + rec.InBlocks(op.order)
	c.CountN("full-range draws recorded", drawn)
	if drawn < op.need {
		c.Fail("%s drew %d full-range scalars, the protocol needs %d", op.name, drawn, op.need)
	}
	c.Eval("count", op.name, drawn >= op.need)
	// the same random stream gives the same output, else the flips below show nothing
	out, err, pan, _ = perform(c, "base", run, nil)
	if err != nil || pan != nil || Digest(out) != base {
		c.Count("output is not a function of inputs and random source")
		return
	}
	// the source may deliver the same bytes in pieces
	out, err, pan, _ = perform(c, "base", run, func(r *Recorder) { r.Chunk = 1 + c.R.Intn(31) })
	if err == nil && pan == nil && Digest(out) != base {
		c.Fail("%s gives a different output if the random source delivers its bytes in pieces", op.name)
	}
	c.Eval("pieces", op.name)
	for k, i := range full {
		if k%shares != share {
			continue
		}
		for _, hi := range []bool{false, true} {
			out, err, pan, r := perform(c, "base", run, func(r *Recorder) { r.FlipAt, r.FlipHi = i, hi })
			if err != nil || pan != nil {
				c.Count("operation failed with a changed draw")
				continue
			}
			if r.Reads <= i {
				c.Count("draw not reached")
				continue
			}
			if Digest(out) == base {
				c.Fail("%s: draw %d of %d does not influence the output (high half: %v)", op.name, k, len(full), hi)
			}
			c.Count("draws changed")
			c.Eval("influence", op.name, k, hi)
		}
	}
}

func runFresh(c *C, op randOp, times int, within bool) {
	run := op.prepare(c)
	if run == nil {
		return
	}
	c.InstallSeeded("fresh")
	current = nil
	seen := map[string]string{}
	for t := 0; t < times; t++ {
		current = c.InstallSeeded(fmt.Sprint("fresh", t))
		var out any
		var err error
		if pan := Call(func() { out, err = run() }); pan != nil || err != nil {
			c.Fail("%s failed: %v %v", op.name, err, pan)
			return
		}
		els := coreElements(out)
		var paths []string
		for p := range els {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		mine := map[string]string{}
		for _, p := range paths {
			v := els[p]
			if old, ok := seen[v]; ok && !constantLeaf(p, v) {
				c.Fail("%s: %s of run %d equals %s: %.80s", op.name, p, t, old, v)
			}
			if old, ok := mine[v]; ok && within && !constantLeaf(p, v) {
				c.Fail("%s: %s and %s of one output are equal: %.80s", op.name, p, old, v)
			}
			mine[v] = p
		}
		for v, p := range mine {
			seen[v] = fmt.Sprintf("%s of run %d", p, t)
		}
		c.CountN("elements compared", len(els))
		c.Eval("fresh", op.name, t)
	}
}

// constantLeaf is true for components that need not be fresh.
func constantLeaf(path, v string) bool {
	last := path[strings.LastIndex(path, ".")+1:]
	return last == "C" || last == "H" || last == "G" || v == "i0"
}

var p16 = Prop{
	ID:   "P16",
	Rule: "each operation is run with a recorded, seeded random source: the full-range draws are counted against the protocol's need; each single draw is changed in a low and in a high bit and the output must change; the source delivers its bytes in pieces; repeated runs (a few, and hundreds) on the same secret and parameters must share no element. Distinct: operation, draw changed and bit.",
	Min:  60,
	Suites: []Suite{
		{"influence", 48, 108, func(c *C) {
			sh := 1
			var op randOp
			switch c.Idx % 12 {
			case 0, 1, 2:
				op, sh = bpOp(32), 3
			case 3, 4:
				op = bpOp([]int{1, 2, 4}[c.R.Intn(3)])
			case 5:
				op = bpOp(8)
			case 6:
				op = bpOp(16)
			case 7:
				op = [...]randOp{proveSetOp(5, -7, 1<<40), proveSetOp(12), proveSetOp(0), proveSetOp(0, 1)}[c.Idx/12%4]
			case 8:
				op = [...]randOp{proveULOp(3, 2), proveULOp(2, 1), proveULOp(57, 1), proveULOp(2, 5)}[c.Idx/12%4]
			case 9:
				op = []randOp{keygenOp(), setupSetOp(3, 9), setupULOp(4, 2)}[c.R.Intn(3)]
			case 10:
				op = []randOp{randomOp(false, theReader), randomOp(true, theReader)}[c.R.Intn(2)]
			case 11:
				op = intervalOp(int64(c.R.Intn(10)), 20+int64(c.R.Intn(30)))
			}
			runInfluence(c, op, c.Idx%sh, sh)
		}},
		{"generic", 12, 12, func(c *C) {
			a := int64(c.R.Intn(1000)) - 500
			runInfluence(c, genericOp(a, a+1000), c.Idx, 12)
		}},
		{"fresh", 32, 120, func(c *C) {
			switch c.Idx % 8 {
			case 0, 1:
				runFresh(c, bpOp(sizes[c.R.Intn(5)]), 6, true)
			case 2:
				runFresh(c, bpOp(32), 3, true)
			case 3:
				runFresh(c, genericOp(-5, 95), 3, true)
			case 4:
				runFresh(c, proveSetOp(5, -7, 1<<40), 4, true)
			case 5:
				runFresh(c, proveULOp(3, 3), 3, true)
			case 6:
				runFresh(c, []randOp{keygenOp(), setupSetOp(3, 9), setupULOp(2, 2)}[c.R.Intn(3)], 3, true)
			case 7:
				runFresh(c, intervalOp(0, 30), 2, true)
			}
		}},
		{"long", 12, 60, func(c *C) {
			switch c.Idx % 4 {
			case 0:
				runFresh(c, bpOp(1), 200, true)
			case 1:
				runFresh(c, bpOp(2), 120, true)
			case 2:
				runFresh(c, proveSetOp(5, -7), 30, true)
			case 3:
				runFresh(c, keygenOp(), 300, true)
				runFresh(c, proveULOp(2, 2), 12, true)
			}
		}},
		{"uniform", 8, 40, func(c *C) {
			// the real random source of the system
			realRandom(c)
		}},
	},
}

// system is the random source of the system, before any recorder is installed.
var system = rand.Reader

func realRandom(c *C) {
	rand.Reader = system
	seen := map[string]bool{}
	var ones, zeros [251]int
	n := 0
	record := func(what string, v string) {
		if seen[v] {
			c.Fail("%s repeats a value: %.80s", what, v)
		}
		seen[v] = true
	}
	bits := func(k *big.Int) {
		n++
		for i := range ones {
			if k.Bit(i) == 1 {
				ones[i]++
			} else {
				zeros[i]++
			}
		}
	}
	for i := 0; i < 100; i++ {
		k, err := bb.Keygen()
		if err != nil || k.Privk == nil {
			c.Fail("Keygen: %v", err)
			return
		}
		record("Keygen", k.Privk.String())
		bits(k.Privk)
		k1, p1, err := bn256.RandomG1(rand.Reader)
		if err != nil {
			c.Fail("RandomG1: %v", err)
			return
		}
		record("RandomG1", fmt.Sprintf("%x", p1.Marshal()))
		bits(k1)
	}
	for i := range ones {
		if ones[i] == 0 || zeros[i] == 0 {
			c.Fail("bit %d of %d random scalars is always the same", i, n)
		}
	}
	c.CountN("scalars from the system's source", n)
	p, ok := setup(c, 1)
	if !ok {
		return
	}
	for i := 0; i < 30; i++ {
		if pr := prove(c, I(int64(i%2)), p); pr != nil {
			for path, v := range coreElements(pr) {
				if !constantLeaf(path, v) {
					record("Prove "+path, path+v)
				}
			}
		}
	}
	c.Eval("system source")
}
