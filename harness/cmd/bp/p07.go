package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/ing-bank/zkrp/crypto/p256"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

type node = any

func decodeTree(b []byte) node {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var n node
	d.Decode(&n)
	return n
}

// place is a position of a document: a parent container and a key or index.
type place struct {
	path string
	obj  map[string]any
	key  string
	arr  []any
	idx  int
}

func (p place) get() node {
	if p.obj != nil {
		return p.obj[p.key]
	}
	return p.arr[p.idx]
}

func (p place) set(n node) {
	if p.obj != nil {
		p.obj[p.key] = n
	} else {
		p.arr[p.idx] = n
	}
}

func places(n node, path string, out *[]place) {
	switch x := n.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			q := place{path: path + "." + k, obj: x, key: k}
			*out = append(*out, q)
			places(x[k], q.path, out)
		}
	case []any:
		for i := range x {
			q := place{path: fmt.Sprintf("%s[%d]", path, i), arr: x, idx: i}
			*out = append(*out, q)
			places(x[i], q.path, out)
		}
	}
}

func numNode(x *big.Int) node { return json.Number(x.String()) }

func pointNode(x, y node) node { return map[string]any{"X": x, "Y": y} }

func ptNode(p *p256.P256) node {
	if PStr(p) == "inf" {
		return pointNode(numNode(I(0)), numNode(I(0)))
	}
	return pointNode(numNode(p.X), numNode(p.Y))
}

func hostileNumber(r *Rng) node {
	switch r.Intn(14) {
	case 0:
		return nil
	case 1:
		return numNode(I(0))
	case 2:
		return numNode(I(-1))
	case 3:
		return numNode(r.Bits(20000))
	case 4:
		return numNode(new(big.Int).Neg(r.Bits(300)))
	case 5:
		return numNode(ref.SecN)
	case 6:
		return numNode(ref.SecP)
	case 7:
		return numNode(new(big.Int).Add(ref.SecP, I(int64(r.Intn(5)))))
	case 8:
		return numNode(Pow2(256))
	case 9:
		return numNode(new(big.Int).Sub(Pow2(256), I(1)))
	case 10:
		return numNode(I(1))
	case 11:
		return numNode(new(big.Int).Neg(ref.SecN))
	}
	return numNode(r.Scalar(ref.SecN))
}

func hostilePointNode(r *Rng) node {
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return map[string]any{}
	case 2:
		return pointNode(nil, nil)
	case 3:
		return pointNode(numNode(I(0)), numNode(I(0)))
	case 4:
		return pointNode(hostileNumber(r), hostileNumber(r))
	case 5:
		g := ref.SecG
		return pointNode(numNode(g.X), hostileNumber(r))
	case 6:
		g := ref.SecG
		return pointNode(hostileNumber(r), numNode(g.Y))
	case 7: // not reduced
		g := ref.SecG
		return pointNode(numNode(new(big.Int).Add(g.X, ref.SecP)), numNode(g.Y))
	case 8:
		g := ref.SecG
		return pointNode(numNode(g.X), numNode(new(big.Int).Sub(g.Y, ref.SecP)))
	case 9: // on the twist of the curve y^2 = x^3 + b'
		return pointNode(numNode(r.Below(ref.SecP)), numNode(r.Below(ref.SecP)))
	case 10:
		return pointNode(numNode(r.Below(ref.SecP)), nil)
	}
	p := ref.Secp.Mul(ref.SecG, r.Below(ref.SecN))
	return pointNode(numNode(p.X), numNode(p.Y))
}

var hostileN = []int64{0, -1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 1 << 15, 1 << 20, 1 << 26, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1 << 40, 1 << 62, 9223372036854775807, -9223372036854775808, -2, -32}

func isPoint(n node) bool {
	m, ok := n.(map[string]any)
	if !ok {
		return false
	}
	_, a := m["X"]
	_, b := m["Y"]
	return a && b && len(m) == 2
}

// mutateTree makes one change to a document and names it.
func mutateTree(c *C, root node) string {
	var ps []place
	places(root, "", &ps)
	if len(ps) == 0 {
		return "none"
	}
	p := ps[c.R.Intn(len(ps))]
	// prefer what is not one of the many coordinates of generators
	for k := 0; k < 6 && (strings.Contains(p.path, "Gg[") || strings.Contains(p.path, "Hh[")); k++ {
		p = ps[c.R.Intn(len(ps))]
	}
	if c.R.Intn(5) == 0 { // the size fields
		for k := 0; k < 400; k++ {
			q := ps[c.R.Intn(len(ps))]
			if strings.HasSuffix(q.path, ".N") {
				p = q
				break
			}
		}
	}
	if c.R.Intn(6) == 0 { // the lists
		for k := 0; k < 400; k++ {
			q := ps[c.R.Intn(len(ps))]
			if _, ok := q.get().([]any); ok || strings.HasSuffix(q.path, ".Ls") || strings.HasSuffix(q.path, ".Rs") {
				p = q
				break
			}
		}
	}
	name := generalPath(p.path)
	if strings.HasSuffix(p.path, ".N") || p.path == ".A" || p.path == ".B" {
		v := hostileN[c.R.Intn(len(hostileN))]
		p.set(json.Number(fmt.Sprint(v)))
		return name + " size"
	}
	switch x := p.get().(type) {
	case json.Number:
		p.set(hostileNumber(c.R))
		return name + " number"
	case []any:
		switch c.R.Intn(9) {
		case 0:
			p.set(nil)
			return name + " null list"
		case 1:
			p.set([]any{})
			return name + " empty list"
		case 2:
			if len(x) > 0 {
				p.set(x[:c.R.Intn(len(x))])
			}
			return name + " truncated"
		case 3:
			p.set(append(append([]any{}, x...), hostilePointNode(c.R)))
			return name + " appended"
		case 4:
			p.set(append(append([]any{}, x...), x...))
			return name + " doubled"
		case 5:
			n := []int{33, 62, 63, 64, 65, 70, 200, 3000}[c.R.Intn(8)]
			var l []any
			for i := 0; i < n; i++ {
				l = append(l, ptNode(gmul(I(int64(i%5+1)))))
			}
			p.set(l)
			return name + " long list"
		case 6:
			if len(x) > 0 {
				x[c.R.Intn(len(x))] = hostilePointNode(c.R)
			}
			return name + " hostile entry"
		case 7:
			l := append([]any{}, x...)
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			p.set(l)
			return name + " reversed"
		}
		var l []any
		for range x {
			l = append(l, nil)
		}
		p.set(l)
		return name + " list of nulls"
	case map[string]any:
		if isPoint(x) {
			p.set(hostilePointNode(c.R))
			return name + " point"
		}
		switch c.R.Intn(3) {
		case 0:
			p.set(nil)
			return name + " null object"
		case 1:
			p.set(map[string]any{})
			return name + " empty object"
		}
		ks := sortedKeys(x)
		if len(ks) > 0 {
			delete(x, ks[c.R.Intn(len(ks))])
		}
		return name + " field removed"
	default:
		if p.obj != nil && c.R.Bool() {
			delete(p.obj, p.key)
			return name + " removed"
		}
		p.set(hostilePointNode(c.R))
		return name + " filled"
	}
}

func generalPath(s string) string {
	var b strings.Builder
	in := false
	for _, r := range s {
		if r == '[' {
			in = true
			b.WriteString("[]")
		}
		if !in {
			b.WriteRune(r)
		}
		if r == ']' {
			in = false
		}
	}
	return b.String()
}

// wellFormed decides independently whether a proof that was accepted deserves it: it must
// be equivalent to one of the valid proofs it was derived from.
func judgeBytes(c *C, doc []byte, label string, valid map[string]bool, gen bool) {
	if gen {
		var q generic
		if json.Unmarshal(doc, &q) != nil {
			c.Count("not decodable")
			return
		}
		o := verifyG(q)
		c.Eval("generic", label, o.Kind())
		c.Count("outcome " + o.Kind())
		if o.Panic != nil {
			c.Fail("Verify of a decoded ProofBPRP (%s) panics: %v; document %.1500s", label, o.Panic, doc)
		}
		if o.Accepted() && !valid[essence(&q.P1)+"#"+essence(&q.P2)+fmt.Sprint("#", q.A-q.B)] {
			c.Fail("Verify accepts a ProofBPRP that is not equivalent to a valid one (%s): %.1500s", label, doc)
		}
		return
	}
	var q proof
	if json.Unmarshal(doc, &q) != nil {
		c.Count("not decodable")
		return
	}
	o := verify(&q)
	c.Eval("bulletproof", label, o.Kind())
	c.Count("outcome " + o.Kind())
	if o.Panic != nil {
		c.Fail("Verify of a decoded BulletProof (%s) panics: %v; document %.1500s", label, o.Panic, doc)
	}
	if o.Accepted() && !valid[essence(&q)] {
		c.Fail("Verify accepts a BulletProof that is not equivalent to a valid one (%s): %.1500s", label, doc)
	}
}

var p07 = Prop{
	ID:   "P07",
	Rule: "JSON documents of valid proofs (N=1..32, generic) with one to four structural changes: hostile numbers and points, null, missing, empty, truncated, doubled, reversed and over-long lists, hostile sizes; consistent changes of sizes and list lengths; synthetic documents. Oracles: no panic, no memory exhaustion or fault (worker process supervised; second run under AddressSanitizer), never true unless equivalent to the valid proof. Distinct: (changed field, kind of change, outcome).",
	Min:  200,
	Suites: []Suite{
		{"bulletproof", 160, 3000, func(c *C) {
			n := []int{1, 2, 4, 8, 4, 2, 8, 16}[c.Idx%8]
			if c.Idx%40 == 39 {
				n = 32
			}
			pr := honest(c, n)
			if pr == nil {
				return
			}
			valid := map[string]bool{essence(pr): true}
			b, err := json.Marshal(pr)
			if err != nil {
				c.Fail("json.Marshal: %v", err)
				return
			}
			for k := 0; k < 40; k++ {
				t := decodeTree(b)
				label := mutateTree(c, t)
				for c.R.Intn(3) == 0 {
					label = "several: " + label
					mutateTree(c, t)
				}
				doc, _ := json.Marshal(t)
				judgeBytes(c, doc, label, valid, false)
			}
		}},
		{"consistent sizes", 120, 1500, func(c *C) {
			// sizes and list lengths agree with each other but not with the protocol
			n := []int{1, 2, 4, 8}[c.Idx%4]
			pr := honest(c, n)
			if pr == nil {
				return
			}
			valid := map[string]bool{essence(pr): true}
			m := hostileN[c.Idx/4%len(hostileN)]
			q := Clone(pr)
			q.Params.N, q.InnerProductProof.N, q.InnerProductProof.Params.N, q.Params.InnerProductParams.N = m, m, m, m
			label := fmt.Sprintf("all sizes %d", m)
			if c.R.Bool() && m >= 0 && m < 300 {
				label += " and lists"
				fit := func(l []*p256.P256, m int) []*p256.P256 {
					for len(l) < m {
						l = append(l, cp(l[len(l)%n]))
					}
					return l[:m]
				}
				q.Params.Gg, q.Params.Hh = fit(q.Params.Gg, int(m)), fit(q.Params.Hh, int(m))
				ip := &q.InnerProductProof
				ip.Params.Gg, ip.Params.Hh = fit(ip.Params.Gg, int(m)), fit(ip.Params.Hh, int(m))
				k := 0
				for 1<<k < int(m) {
					k++
				}
				if n > 1 {
					fit2 := func(l []*p256.P256) []*p256.P256 {
						for len(l) < k {
							l = append(l, pt(c))
						}
						return l[:k]
					}
					ip.Ls, ip.Rs = fit2(ip.Ls), fit2(ip.Rs)
				}
			}
			doc, err := json.Marshal(q)
			if err != nil {
				c.Fail("json.Marshal: %v", err)
				return
			}
			judgeBytes(c, doc, label, valid, false)
			// and rounds only
			for _, k := range []int{0, 1, 2, 3, 6, 31, 32, 33, 62, 63, 64, 65} {
				q := Clone(pr)
				ip := &q.InnerProductProof
				ip.Ls, ip.Rs = nil, nil
				for i := 0; i < k; i++ {
					ip.Ls, ip.Rs = append(ip.Ls, gmul(I(int64(i+1)))), append(ip.Rs, gmul(I(int64(i+2))))
				}
				if c.R.Bool() {
					ip.N = 1 << uint(k&63)
				}
				doc, _ := json.Marshal(q)
				if 1<<k == n {
					continue
				}
				judgeBytes(c, doc, fmt.Sprintf("%d rounds", k), valid, false)
			}
		}},
		{"synthetic", 120, 1500, func(c *C) {
			docs := []string{`{}`, `null`, `{"Params":{}}`, `{"Params":{"N":1}}`, `{"Params":{"N":32}}`, `{"InnerProductProof":{"N":1}}`,
				`{"Params":{"N":1,"Gg":[null],"Hh":[null]}}`, `{"Params":{"N":2,"Gg":[{"X":1,"Y":2},{"X":null}],"Hh":[{},{}]},"Taux":1,"Mu":0,"Tprime":-1}`,
				`{"Params":{"N":9223372036854775807}}`, `{"Params":{"N":-1}}`, `{"Params":{"N":4294967297}}`}
			if c.Idx < len(docs) {
				judgeBytes(c, []byte(docs[c.Idx]), docs[c.Idx], nil, false)
				judgeBytes(c, []byte(`{"P1":`+docs[c.Idx]+`,"P2":`+docs[c.Idx]+`}`), docs[c.Idx], nil, true)
				judgeBytes(c, []byte(docs[c.Idx]), docs[c.Idx], nil, true)
				return
			}
			// every element from a hostile generator, the public parameters intact
			n := sizes[c.R.Intn(4)]
			p, ok := setup(c, n)
			if !ok {
				return
			}
			pr := &proof{Params: p}
			b, _ := json.Marshal(pr)
			for k := 0; k < 20; k++ {
				t, _ := decodeTree(b).(map[string]any)
				if t == nil {
					return
				}
				kind := c.R.Intn(3)
				pn := func() node {
					switch {
					case kind == 0:
						return ptNode(pt(c))
					case kind == 1 && c.R.Intn(4) > 0:
						return ptNode(inf())
					}
					return hostilePointNode(c.R)
				}
				sn := func() node {
					if kind == 1 {
						return numNode(I(0))
					}
					if kind == 0 {
						return numNode(c.R.Below(ref.SecN))
					}
					return hostileNumber(c.R)
				}
				for _, f := range []string{"V", "A", "S", "T1", "T2", "Commit"} {
					t[f] = pn()
				}
				for _, f := range []string{"Taux", "Mu", "Tprime"} {
					t[f] = sn()
				}
				ip, _ := t["InnerProductProof"].(map[string]any)
				if ip != nil {
					ip["A"], ip["B"], ip["U"], ip["P"], ip["Gg"], ip["Hh"] = sn(), sn(), pn(), pn(), pn(), pn()
					var ls, rs []any
					for i := 1; i < n; i *= 2 {
						ls, rs = append(ls, pn()), append(rs, pn())
					}
					ip["Ls"], ip["Rs"], ip["N"] = ls, rs, json.Number(fmt.Sprint(n))
				}
				doc, _ := json.Marshal(t)
				judgeBytes(c, doc, fmt.Sprintf("synthetic %d", kind), nil, false)
			}
		}},
		{"generic", 24, 300, func(c *C) {
			a, b := bounds(c.R, c.Idx%9)
			g, err := zk.SetupGeneric(a, b)
			if err != nil {
				c.Fail("SetupGeneric(%d,%d): %v", a, b, err)
				return
			}
			pr, err := g.Prove(bi(a))
			if err != nil {
				return
			}
			valid := map[string]bool{essence(&pr.P1) + "#" + essence(&pr.P2) + fmt.Sprint("#", pr.A-pr.B): true}
			doc, _ := json.Marshal(pr)
			for k := 0; k < 10; k++ {
				t := decodeTree(doc)
				label := mutateTree(c, t)
				d, _ := json.Marshal(t)
				judgeBytes(c, d, label, valid, true)
			}
		}},
	},
}
