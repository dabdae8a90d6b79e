package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	"github.com/ing-bank/zkrp/bulletproofs"
	bb "github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"
	"github.com/ing-bank/zkrp/util/byteconversion"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

// request is what a process is asked to compute.
type request struct {
	Seed    string
	Sizes   []int
	History string // what happens in the process before
	Proofs  []json.RawMessage
	Generic []json.RawMessage
	Make    []int // sizes of proofs to make
}

// reply is what it says.
type reply struct {
	Values   map[string]string
	Verdicts []string
	Again    []json.RawMessage // the proofs, encoded again
	Made     []json.RawMessage
}

// functionsOf evaluates functions of the library at arguments that depend on the seed only.
func functionsOf(seed string, sizes []int) map[string]string {
	r := NewRng("functions " + seed)
	out := map[string]string{}
	put := func(name string, f func() any) {
		var v any
		if e := Call(func() { v = f() }); e != nil {
			v = fmt.Sprint("panic: ", e)
		}
		switch x := v.(type) {
		case string:
			out[name] = x
		default:
			out[name] = Digest(v)
		}
	}
	str := func(v ...any) string { return fmt.Sprint(v...) }
	for _, n := range sizes {
		put(fmt.Sprintf("Setup(2^%d)", n), func() any { p, err := bulletproofs.Setup(rangeEnd(n)); return str(Digest(&p), err) })
		put(fmt.Sprintf("parameters for 2^%d in JSON", n), func() any {
			p, _ := bulletproofs.Setup(rangeEnd(n))
			b, err := json.Marshal(p)
			return str(string(b), err)
		})
	}
	for _, b := range []int64{0, 1, 3, 8, 1 << 33, -2} {
		put(fmt.Sprintf("Setup(%d)", b), func() any { p, err := bulletproofs.Setup(b); return str(Digest(&p), err != nil) })
	}
	var ps []*p256.P256
	for i := 0; i < 4; i++ {
		m := fmt.Sprintf("%x", r.Bytes(r.Intn(12)))
		put("MapToGroup "+m, func() any { p, err := p256.MapToGroup(m); return str(PStr(p), err) })
		put("HashToInt "+m, func() any { h, err := p256.HashToInt(*bytes.NewBufferString(m)); return str(h, err) })
		put("CalculateHash "+m, func() any { h, err := bn.CalculateHash(r.Fork(m).Bits(200), I(int64(len(m)))); return str(h, err) })
		ps = append(ps, new(p256.P256).ScalarBaseMult(r.Below(ref.SecN)))
	}
	ps = append(ps, inf())
	put("HashBP", func() any { x, y, err := bulletproofs.HashBP(ps...); return str(x, y, err) })
	put("HashBP of three", func() any { x, y, err := bulletproofs.HashBP(ps[:3]...); return str(x, y, err) })
	x, k := r.Scalar(ref.SecN), r.Scalar(ref.SecN)
	put("CommitG1", func() any { c, err := util.CommitG1(x, k, ps[0]); return str(PStr(c), err) })
	put("secp256k1", func() any {
		a := new(p256.P256).ScalarMult(ps[1], k)
		a.Multiply(a, ps[2])
		return str(PStr(a), PStr(new(p256.P256).Neg(a)), a.String())
	})
	a := new(bn256.G1).ScalarBaseMult(r.Below(ref.BnN))
	b := new(bn256.G2).ScalarBaseMult(r.Below(ref.BnN))
	h := new(bn256.G2).ScalarBaseMult(r.Below(ref.BnN))
	put("bn256", func() any {
		e := bn256.Pair(a, b)
		e.ScalarMult(e, r.Fork("e").Below(ref.BnN))
		return fmt.Sprintf("%x %x %x %s %s %s", a.Marshal(), b.Marshal(), e.Marshal(), a, b, e)
	})
	put("constants", func() any { return fmt.Sprintf("%x %x %x", util.G1.Marshal(), util.G2.Marshal(), util.E.Marshal()) })
	put("Commit", func() any { c, err := util.Commit(x, k, h); return fmt.Sprintf("%x %v", c.Marshal(), err) })
	put("HashSet", func() any { c, err := util.HashSet(util.E, b, h); return str(c, err) })
	put("Hash", func() any { c, err := util.Hash([]*bn256.GT{util.E, util.E}, h, b); return str(c, err) })
	put("Sign", func() any {
		key := r.Fork("key").Below(ref.BnN)
		s, err := bb.Sign(I(42), key)
		if err != nil {
			return str(err)
		}
		ok, err := bb.VerifVerify(s, I(42), new(bn256.G1).ScalarBaseMult(key))
		return fmt.Sprintf("%x %v %v", s.Marshal(), ok, err)
	})
	put("Decompose", func() any { d, err := util.Decompose(new(big.Int).Abs(x), 57, 50); return str(d, err) })
	put("bytes", func() any {
		v := byteconversion.ToByteArray(x)
		y, err := byteconversion.FromByteArray(v)
		return fmt.Sprintf("%x %v %v", v, y, err)
	})
	n := 1 << uint(r.Intn(4))
	put("inner product", func() any {
		var va, vb []*big.Int
		f := r.Fork("ip")
		for i := 0; i < n; i++ {
			va, vb = append(va, f.Below(ref.SecN)), append(vb, f.Below(ref.SecN))
		}
		claim, _ := bulletproofs.ScalarProduct(va, vb)
		prm, err := bulletproofs.VerifSetupInnerProduct(nil, nil, nil, claim, int64(n))
		if err != nil {
			return str(err)
		}
		P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, va, vb)
		pr, err := bulletproofs.VerifProveInnerProduct(va, vb, P, prm)
		return str(Digest(&pr), err, ipVerify(&pr).Kind())
	})
	return out
}

// pastOf is what a process did before it is asked.
func pastOf(kind string, seed string) {
	r := NewRng("history " + seed)
	Call(func() {
		switch kind {
		case "other systems":
			p, _ := bulletproofs.Setup(rangeEnd(2))
			if pr, why := tryProve(I(3), p); why == "" {
				verify(pr)
			}
			if s, err := zk.SetupSet([]int64{1, 2}); err == nil {
				if pr, err := s.Prove(2, I(9)); err == nil {
					s.Verify(pr)
				}
			}
			if g, err := zk.SetupGeneric(3, 9); err == nil {
				g.Prove(I(100))
			}
		case "failures":
			bulletproofs.Setup(3)
			bulletproofs.SetupGeneric(9, 3)
			var p proof
			json.Unmarshal([]byte(`{"V":{"X":1,"Y":2},"Params":{"N":4}}`), &p)
			Call(func() { p.Verify() })
			q, _ := bulletproofs.Setup(rangeEnd(4))
			if pr, why := tryProve(I(-1), q); why == "" {
				verify(pr)
			}
			new(bn256.G2).Unmarshal(r.Bytes(128))
			zk.NewInterval().Setup(5, 4)
		case "concurrency":
			done := make(chan bool)
			for i := 0; i < 4; i++ {
				go func(i int) {
					defer func() { done <- true }()
					Call(func() { functionsOf(fmt.Sprint(seed, i), []int{2}) })
				}(i)
			}
			for i := 0; i < 4; i++ {
				<-done
			}
		}
	})
}

// answer does what a request asks for.
func answer(q request) (a reply) {
	pastOf(q.History, q.Seed)
	verdict := func(x any, v func() zk.Outcome, raw []byte) {
		if err := json.Unmarshal(raw, x); err != nil {
			a.Verdicts, a.Again = append(a.Verdicts, "decoding: "+err.Error()), append(a.Again, nil)
			return
		}
		b, err := json.Marshal(x)
		if err != nil {
			b = nil
		}
		a.Again = append(a.Again, b)
		a.Verdicts = append(a.Verdicts, v().Kind())
	}
	proofs := func() {
		for _, raw := range q.Proofs {
			p := new(proof)
			verdict(p, func() zk.Outcome { return verify(p) }, raw)
		}
		for _, raw := range q.Generic {
			p := new(generic)
			verdict(p, func() zk.Outcome { return verifyPG(p) }, raw)
		}
	}
	if q.History == "functions first" {
		a.Values = functionsOf(q.Seed, q.Sizes)
		proofs()
	} else {
		proofs()
		a.Values = functionsOf(q.Seed, q.Sizes)
	}
	r := NewRng("made " + q.Seed)
	for _, n := range q.Make {
		p, err := bulletproofs.Setup(rangeEnd(n))
		if err != nil {
			continue
		}
		if pr, _ := tryProve(r.Bits(n), p); pr != nil {
			b, _ := json.Marshal(pr)
			a.Made = append(a.Made, b)
		}
	}
	return a
}

// childMain answers one request on standard input.
func childMain() {
	var q request
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	json.NewEncoder(os.Stdout).Encode(answer(q))
}

type surroundings struct {
	name string
	env  []string
	dir  string
}

var allSurroundings = []surroundings{
	{"same", nil, ""},
	{"one processor", []string{"GOMAXPROCS=1"}, ""},
	{"eight processors", []string{"GOMAXPROCS=8", "GOGC=10"}, ""},
	{"no collector", []string{"GOGC=off"}, ""},
	{"another place", []string{"TZ=Pacific/Kiritimati", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LANGUAGE=tr"}, "/"},
	{"another user", []string{"USER=nobody", "LOGNAME=nobody", "HOME=/nonexistent", "HOSTNAME=other", "TMPDIR=/nonexistent"}, ""},
	{"nothing in the environment", []string{"-"}, "/"},
	{"debugging", []string{"DEBUG=1", "VERBOSE=1", "GOTRACEBACK=all", "ZKRP_DEBUG=1", "SEED=1"}, ""},
}

var histories = []string{"", "functions first", "other systems", "failures", "concurrency"}

// ask has another process answer.
func ask(c *C, q request, s surroundings) (a reply, ok bool) {
	in, _ := json.Marshal(q)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0])
	if !strings.HasPrefix(os.Args[0], "/") {
		if p, err := os.Executable(); err == nil {
			cmd = exec.CommandContext(ctx, p)
		}
	}
	cmd.Env = append(os.Environ(), s.env...)
	if len(s.env) == 1 && s.env[0] == "-" {
		cmd.Env = nil
	}
	cmd.Env = append(cmd.Env, "VERIF_CHILD=p42")
	cmd.Dir = s.dir
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Count("process stopped after 150 s")
		return a, false
	}
	if err != nil {
		e := errb.String()
		if strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") || strings.Contains(e, "SIG") {
			c.Fail("the process (%s, after %q) ended: %v: %.300s", s.name, q.History, err, e)
		} else {
			c.Count("process could not be run")
		}
		return a, false
	}
	if err := json.NewDecoder(&out).Decode(&a); err != nil && err != io.EOF {
		c.Count("process did not answer")
		return a, false
	}
	runtime.KeepAlive(in)
	c.Count("processes asked")
	return a, true
}

var p42 = Prop{
	ID:   "P42",
	Rule: "the same request (generators, hashes, challenges, commitments, encodings, deterministic arguments, verdicts on encoded proofs that are valid, out of range or altered) is answered by processes of their own in different surroundings (processors, collector, environment, directory) with different histories, and proofs they make are verified here. Distinct: (surroundings, history, N, verdicts).",
	Min:  20,
	Suites: []Suite{
		{"processes", 48, 480, func(c *C) {
			n, m := sizes[c.Idx%6], sizes[c.R.Intn(4)]
			q := request{Seed: fmt.Sprintf("%x", c.R.Bytes(8)), Sizes: []int{n, m}, Make: []int{m}}
			var want []string
			addProof := func(pr *proof) {
				if b, err := json.Marshal(pr); err == nil {
					q.Proofs, want = append(q.Proofs, b), append(want, verify(pr).Kind())
				}
			}
			for i := 0; i < 3; i++ {
				k := []int{n, m, m}[i]
				p, ok := setup(c, k)
				if !ok {
					return
				}
				x := c.R.Bits(k)
				if i == 1 {
					x = outside(c.R, k, c.R.Intn(20))
				}
				pr, _ := tryProve(x, p)
				if pr == nil {
					continue
				}
				if i == 2 && c.R.Intn(2) == 0 {
					alterForTransport(c, pr)
				}
				addProof(pr)
			}
			if c.Idx%8 == 0 {
				if g, err := zk.SetupGeneric(-5, 95); err == nil {
					if pr, err := g.Prove(I(int64(c.R.Intn(110)) - 10)); err == nil {
						b, _ := json.Marshal(pr)
						q.Generic, want = append(q.Generic, b), append(want, verifyG(pr).Kind())
					}
				}
			}
			here := functionsOf(q.Seed, q.Sizes)
			for i := 0; i < 2; i++ {
				s := allSurroundings[(c.Idx+3*i)%len(allSurroundings)]
				q.History = histories[c.R.Intn(len(histories))]
				a, ok := ask(c, q, s)
				if !ok {
					continue
				}
				where := fmt.Sprintf("a process (%s, after %q)", s.name, q.History)
				if q.History == "" {
					where = fmt.Sprintf("a process (%s)", s.name)
				}
				for _, name := range Keys(here) {
					if a.Values[name] != here[name] {
						c.Fail("%s is %.200s here and %.200s in %s", name, here[name], a.Values[name], where)
					}
				}
				c.CountN("values compared", len(here))
				for j := range want {
					if j >= len(a.Verdicts) || a.Verdicts[j] != want[j] {
						c.Fail("proof %d is %s here and %v in %s", j, want[j], a.Verdicts, where)
						continue
					}
					var sent []byte
					if j < len(q.Proofs) {
						sent = q.Proofs[j]
					} else {
						sent = q.Generic[j-len(q.Proofs)]
					}
					if string(a.Again[j]) != string(sent) {
						c.Fail("proof %d is encoded in other bytes by %s", j, where)
					}
				}
				c.CountN("verdicts compared", len(want))
				for _, b := range a.Made {
					p := new(proof)
					if err := json.Unmarshal(b, p); err != nil {
						c.Fail("a proof made in %s cannot be decoded: %v", where, err)
						continue
					}
					if o := verify(p); !o.Accepted() {
						c.Fail("an honest proof made in %s for [0,2^%d): %s", where, m, o)
					}
					c.Count("proofs of other processes verified")
				}
				c.Eval("processes", s.name, q.History, n, fmt.Sprint(want))
			}
			c.Sample("N=%d, %d: verdicts %v in other processes", n, m, want)
		}},
	},
}
