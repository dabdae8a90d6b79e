package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

// held is a value that must keep the value it has: parameters, a proof, a secret, a set.
type held struct {
	name   string
	v      any // pointer
	snap   map[string]string
	verify func() zk.Outcome // for proofs
	mine   func()            // for inputs: the caller uses the memory for something else
}

// history is a sequence of setups and proofs whose inputs and outputs all stay alive.
type history struct {
	c     *C
	live  []*held
	trace []string
}

func (h *history) keep(name string, v any) *held {
	o := &held{name: name, v: v}
	o.snap = h.look(o)
	h.live = append(h.live, o)
	return o
}

// look reads a value, from a copy half of the time, since reading coordinates may
// normalize them.
func (h *history) look(o *held) map[string]string {
	if h.c.R.Bool() {
		return Snapshot(CloneAny(o.v))
	}
	return Snapshot(o.v)
}

// check compares everything that is alive with what it was.
func (h *history) check(what string) bool {
	ok := true
	for _, o := range h.live {
		now := h.look(o)
		h.c.CountN("components compared", len(now))
		if d := DiffSnap(o.snap, now); d != "" {
			h.c.Fail("%s changed %s: %s (after %s)", what, o.name, d, strings.Join(h.trace, "; "))
			o.snap = now
			ok = false
		}
	}
	return ok
}

func (h *history) step(what string, f func() error) bool {
	var err error
	p := Call(func() { err = f() })
	h.trace = append(h.trace, what)
	if p != nil || err != nil {
		h.c.Fail("%s: %v %v", what, err, p)
		return false
	}
	h.c.Count("steps")
	return h.check(what)
}

// number holds an integer input of the caller's.
func (h *history) number(name string, x *big.Int) (*big.Int, *held) {
	v := new(big.Int).Set(x)
	o := h.keep(name+" "+x.String(), &struct{ N *big.Int }{v})
	o.mine = func() {
		switch h.c.R.Intn(3) {
		case 0:
			v.SetInt64(0)
		case 1:
			v.Add(v, I(1))
		default: // the words themselves
			for i, w := range v.Bits() {
				v.Bits()[i] = ^w
			}
		}
	}
	return v, o
}

// reuse lets the caller overwrite inputs of the past; nothing else may change.
func (h *history) reuse() {
	var rest []*held
	n := 0
	for _, o := range h.live {
		if o.mine != nil && h.c.R.Intn(3) > 0 {
			o.mine()
			n++
			continue
		}
		rest = append(rest, o)
	}
	h.live = rest
	if n > 0 {
		h.c.CountN("inputs overwritten by the caller", n)
		h.trace = append(h.trace, "inputs overwritten")
		h.check("overwriting an input after its use")
	}
}

// session is one system with its parameters.
type session struct {
	name  string
	prove func(h *history, t int) bool
}

func (h *history) bpSession(n int) *session {
	var p params
	if !h.step(fmt.Sprintf("Setup 2^%d", n), func() (e error) { p, e = bulletproofs.Setup(rangeEnd(n)); return }) {
		return nil
	}
	h.keep(fmt.Sprintf("parameters of [0,2^%d)", n), &p)
	return &session{"bulletproof", func(h *history, t int) bool {
		x, _ := h.number("secret", secretsFor(h.c.R, n, h.c.R.Intn(20)))
		out := new(proof)
		if !h.step(fmt.Sprintf("Prove(%s) in [0,2^%d)", x, n), func() (e error) { *out, e = bulletproofs.Prove(x, p); return }) {
			return false
		}
		o := h.keep(fmt.Sprintf("proof %d", t), out)
		o.verify = func() zk.Outcome { return verify(out) }
		return true
	}}
}

func (h *history) genericSession() *session {
	a := h.c.R.Bits(30).Int64() - 1<<29
	b := a + 1 + h.c.R.Bits(1+h.c.R.Intn(30)).Int64()
	var g *zk.Generic
	if !h.step(fmt.Sprintf("SetupGeneric(%d,%d)", a, b), func() (e error) { g, e = zk.SetupGeneric(a, b); return }) {
		return nil
	}
	h.keep(fmt.Sprintf("parameters of [%d,%d)", a, b), g.P)
	return &session{"generic", func(h *history, t int) bool {
		x, _ := h.number("secret", new(big.Int).Add(I(a), h.c.R.Below(I(b-a))))
		out := new(generic)
		if !h.step(fmt.Sprintf("ProveGeneric(%s)", x), func() (e error) { *out, e = g.Prove(x); return }) {
			return false
		}
		o := h.keep(fmt.Sprintf("generic proof %d", t), out)
		o.verify = func() zk.Outcome { return verifyPG(out) }
		return true
	}}
}

func (h *history) blinding() *big.Int {
	switch h.c.R.Intn(8) {
	case 0:
		return I(0)
	case 1:
		return I(-1 - int64(h.c.R.Intn(1000)))
	case 2:
		return h.c.R.Bits(600)
	case 3:
		return new(big.Int).Neg(h.c.R.Bits(300))
	}
	return h.c.R.Below(ref.BnN)
}

func (h *history) setSession() *session {
	n := 1 + h.c.R.Intn(5)
	set := make([]int64, n)
	for i := range set {
		switch h.c.R.Intn(3) {
		case 0:
			set[i] = h.c.R.Int64()
		default:
			set[i] = int64(h.c.R.Intn(20)) - 10
		}
	}
	mine := append(make([]int64, 0, n+3), set...)
	in := h.keep(fmt.Sprint("set ", set), &mine)
	spare := mine[:cap(mine)] // what lies behind the slice is the caller's, too
	for i := n; i < len(spare); i++ {
		spare[i] = -77
	}
	var s *zk.Set
	if !h.step(fmt.Sprint("SetupSet", set), func() (e error) { s, e = zk.SetupSet(mine); return }) {
		return nil
	}
	for i := n; i < len(spare); i++ {
		if spare[i] != -77 {
			h.c.Fail("SetupSet wrote behind the set it was given")
		}
	}
	in.mine = func() {
		for i := range mine {
			mine[i] ^= 0x55
		}
	}
	h.keep(fmt.Sprint("parameters of set ", set), s.P)
	return &session{"set", func(h *history, t int) bool {
		x := set[h.c.R.Intn(n)]
		r, _ := h.number("blinding", h.blinding())
		var out any
		if !h.step(fmt.Sprintf("ProveSet(%d,%s)", x, r), func() (e error) { out, e = s.Prove(x, r); return }) {
			return false
		}
		o := h.keep(fmt.Sprintf("set proof %d", t), out)
		o.verify = func() zk.Outcome { return zk.Do(func() (bool, error) { return s.Verify(out) }) }
		return true
	}}
}

func (h *history) ulSession() *session {
	u, l := int64(2+h.c.R.Intn(8)), int64(1+h.c.R.Intn(4))
	var s *zk.UL
	if !h.step(fmt.Sprintf("SetupUL(%d,%d)", u, l), func() (e error) { s, e = zk.SetupUL(u, l); return }) {
		return nil
	}
	h.keep(fmt.Sprintf("parameters of [0,%d^%d)", u, l), s.P)
	return &session{"ul", func(h *history, t int) bool {
		x, _ := h.number("secret", h.c.R.Below(new(big.Int).Exp(I(u), I(l), nil)))
		r, _ := h.number("blinding", h.blinding())
		var out any
		if !h.step(fmt.Sprintf("ProveUL(%s,%s)", x, r), func() (e error) { out, e = s.Prove(x, r); return }) {
			return false
		}
		o := h.keep(fmt.Sprintf("UL proof %d", t), out)
		o.verify = func() zk.Outcome { return zk.Do(func() (bool, error) { return s.Verify(out) }) }
		return true
	}}
}

func (h *history) intervalSession() *session {
	a := int64(h.c.R.Intn(200)) - 100
	b := a + 2 + int64(h.c.R.Intn(3000))
	if b < 2 {
		b = 2
	}
	iv := zk.NewInterval()
	if !h.step(fmt.Sprintf("ccs08.Setup(%d,%d)", a, b), func() error { return iv.Setup(a, b) }) {
		return nil
	}
	h.keep(fmt.Sprintf("parameters of ccs08 [%d,%d)", a, b), iv.Params())
	shallow := func(i int) any {
		v := reflect.ValueOf(iv.Half(i)).Elem()
		n := reflect.New(v.Type())
		n.Elem().Set(v)
		return n.Interface()
	}
	return &session{"interval", func(h *history, t int) bool {
		x, _ := h.number("secret", new(big.Int).Add(I(a), h.c.R.Below(I(b-a))))
		r, _ := h.number("blinding", h.blinding())
		if !h.step(fmt.Sprintf("ccs08.Prove(%s,%s)", x, r), func() error { return iv.Prove(x, r) }) {
			return false
		}
		if iv.Half(0) == nil || iv.Half(1) == nil {
			h.c.Count("halves not reachable")
			return true
		}
		p, q := shallow(0), shallow(1)
		o := h.keep(fmt.Sprintf("interval proof %d", t), &[2]any{p, q})
		o.verify = func() zk.Outcome {
			iv.SetHalf(0, p)
			iv.SetHalf(1, q)
			return zk.Do(iv.Verify)
		}
		return true
	}}
}

func runHistory(c *C, kinds []int, steps int) {
	h := &history{c: c}
	var ss []*session
	for _, k := range kinds {
		var s *session
		switch k {
		case 0, 1, 2, 3, 4, 5:
			s = h.bpSession(sizes[k])
		case 6:
			s = h.genericSession()
		case 7:
			s = h.setSession()
		case 8:
			s = h.ulSession()
		case 9:
			s = h.intervalSession()
		}
		if s == nil {
			return
		}
		ss = append(ss, s)
		c.Eval("setup", k)
	}
	for t := 0; t < steps; t++ {
		s := ss[c.R.Intn(len(ss))]
		if t < len(ss) {
			s = ss[t]
		}
		if !s.prove(h, t) {
			return
		}
		c.Eval("prove", s.name, len(h.live))
		if c.R.Intn(3) == 0 {
			h.reuse()
		}
	}
	h.reuse()
	c.Sample("%s", strings.Join(h.trace, "; "))
	for _, o := range h.live {
		if o.verify == nil {
			continue
		}
		if r := o.verify(); !r.Accepted() {
			c.Fail("%s is not valid any more: %s (after %s)", o.name, r, strings.Join(h.trace, "; "))
		}
		c.Count("proofs verified at the end")
	}
	h.check("verifying everything")
}

var p37 = Prop{
	ID:     "P37",
	Level:  "exploration",
	Rule:   "every input, parameter set and earlier proof of a history of setups and proofs is compared with its first snapshot after each step",
	Assume: []string{"values are compared by group element and number, not by representation"},
	Min:    20,
	Suites: []Suite{
		{"one system", 40, 400, func(c *C) {
			k := c.Idx % 10
			steps := 4
			if k == 5 || k == 6 || k == 4 {
				steps = 2
			}
			runHistory(c, []int{k}, steps)
		}},
		{"two parameter sets", 20, 200, func(c *C) {
			k := c.Idx % 10
			if k == 5 {
				k = 2
			}
			steps := 4
			if k == 6 {
				steps = 3
			}
			runHistory(c, []int{k, k}, steps)
		}},
		{"mixed", 24, 300, func(c *C) {
			var ks []int
			for i := 0; i < 3; i++ {
				ks = append(ks, []int{0, 1, 2, 3, 7, 8, 9, 6}[c.R.Intn(8)])
			}
			runHistory(c, ks, 6)
		}},
	},
}
