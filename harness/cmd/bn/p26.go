package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	. "verif/harness/core"
	"verif/harness/ref"
)

type globals struct {
	G1, H1        *bn256.G1
	G2, H2        *bn256.G2
	E             *bn256.GT
	P, N          *big.Int
	CP, CN, B     *big.Int
	Gx, Gy, Order *big.Int
	BaseP         *p256.P256
	HP            *p256.P256
}

// snapGlobals reads the package-level generators and constants, also as they show in the
// results of operations that use them.
func snapGlobals() map[string]string {
	h, _ := p256.MapToGroup("x")
	g := &globals{
		util.G1, new(bn256.G1).ScalarBaseMult(I(1)), util.G2, new(bn256.G2).ScalarBaseMult(I(1)), util.E,
		bn256.P, bn256.Order, p256.CURVE.P, p256.CURVE.N, p256.CURVE.B, p256.CURVE.Gx, p256.CURVE.Gy,
		bulletproofs.ORDER, new(p256.P256).ScalarBaseMult(I(1)), h,
	}
	return Snapshot(g)
}

var globalsWant = map[string]string{}

func init() {
	for k, v := range snapGlobals() {
		globalsWant[k] = v
	}
}

// machine runs random operations on registers of one type; after every step all registers
// but the one written, all scalars and all globals must have the values they had.
type machine struct {
	name string
	ops  []string
	make func(c *C, k *big.Int) any
	do   func(op string, d, a, b any, k *big.Int) any
	eff  func(op string, d, a, b, k *big.Int) *big.Int // new discrete logarithm of d
	enc  func(x any) string
	want func(k *big.Int) string
	ord  *big.Int
}

var machines = []machine{
	{
		name: "p256", ops: []string{"mul", "mul", "mul", "dbl", "neg", "exp", "gexp", "inf", "add"}, ord: ref.SecN,
		make: func(c *C, k *big.Int) any {
			if k.Sign() == 0 && c.R.Bool() {
				return &p256.P256{X: new(big.Int), Y: new(big.Int)}
			}
			return new(p256.P256).ScalarBaseMult(k)
		},
		do: func(op string, d, a, b any, k *big.Int) any {
			r, x, y := d.(*p256.P256), a.(*p256.P256), b.(*p256.P256)
			switch op {
			case "mul":
				return r.Multiply(x, y)
			case "add":
				return r.Add(x, y)
			case "dbl":
				return r.Double(x)
			case "neg":
				return r.Neg(x)
			case "exp":
				return r.ScalarMult(x, k)
			case "gexp":
				return r.ScalarBaseMult(k)
			}
			return r.SetInfinity()
		},
		enc:  func(x any) string { return PStr(x.(*p256.P256)) },
		want: func(k *big.Int) string { return PStr(ToP(SecMul(ref.SecG, k))) },
	},
	{
		name: "G1", ops: []string{"mul", "mul", "mul", "neg", "exp", "gexp", "inf", "dec", "read"}, ord: ref.BnN,
		make: func(c *C, k *big.Int) any { return element(c, g1{}, k, c.R.Intn(nReps)) },
		do: func(op string, d, a, b any, k *big.Int) any {
			r, x, y := d.(*bn256.G1), a.(*bn256.G1), b.(*bn256.G1)
			switch op {
			case "mul":
				return r.Add(x, y)
			case "neg":
				return r.Neg(x)
			case "exp":
				return r.ScalarMult(x, k)
			case "gexp":
				return r.ScalarBaseMult(k)
			case "dec":
				z, _ := r.Unmarshal(x.Marshal())
				return z
			case "read":
				_ = x.String()
				_ = x.IsZero()
				_ = x.Marshal()
				return r.Add(x, new(bn256.G1).SetInfinity())
			}
			return r.SetInfinity()
		},
		enc:  func(x any) string { return g1{}.enc(x) },
		want: g1{}.model,
	},
	{
		name: "G2", ops: []string{"mul", "mul", "mul", "neg", "exp", "gexp", "inf", "dec", "read"}, ord: ref.BnN,
		make: func(c *C, k *big.Int) any { return element(c, g2{}, k, c.R.Intn(nReps)) },
		do: func(op string, d, a, b any, k *big.Int) any {
			r, x, y := d.(*bn256.G2), a.(*bn256.G2), b.(*bn256.G2)
			switch op {
			case "mul":
				return r.Add(x, y)
			case "neg":
				return r.Neg(x)
			case "exp":
				return r.ScalarMult(x, k)
			case "gexp":
				return r.ScalarBaseMult(k)
			case "dec":
				z, _ := r.Unmarshal(x.Marshal())
				return z
			case "read":
				_ = x.String()
				_ = x.IsZero()
				_ = x.Marshal()
				return r.Add(x, new(bn256.G2).SetInfinity())
			}
			return r.SetInfinity()
		},
		enc:  func(x any) string { return g2{}.enc(x) },
		want: g2{}.model,
	},
	{
		name: "GT", ops: []string{"mul", "mul", "neg", "inv", "exp", "Exp", "dec", "read"}, ord: ref.BnN,
		make: func(c *C, k *big.Int) any { return gtEl(c, k) },
		do: func(op string, d, a, b any, k *big.Int) any {
			r, x, y := d.(*bn256.GT), a.(*bn256.GT), b.(*bn256.GT)
			switch op {
			case "mul":
				return r.Add(x, y)
			case "neg":
				return r.Neg(x)
			case "inv":
				return r.Invert(x)
			case "exp":
				return r.ScalarMult(x, k)
			case "Exp":
				return r.Exp(x, k)
			case "dec":
				z, _ := r.Unmarshal(x.Marshal())
				return z
			}
			_ = x.String()
			_ = x.IsOne()
			_ = x.IsZero()
			return r.ScalarMult(x, I(1))
		},
		enc:  func(x any) string { return gtHex(x.(*bn256.GT)) },
		want: ePow,
	},
}

func effect(op string, d, a, b, k *big.Int) *big.Int {
	switch op {
	case "mul", "add":
		return new(big.Int).Add(a, b)
	case "dbl":
		return new(big.Int).Lsh(a, 1)
	case "neg", "inv":
		return expNeg(a)
	case "exp", "Exp":
		return new(big.Int).Mul(a, k)
	case "gexp":
		return new(big.Int).Set(k)
	case "inf":
		return new(big.Int)
	}
	return a // dec, read
}

func program(c *C, m machine, n, steps int) {
	reg := make([]any, n)
	log := make([]*big.Int, n)
	encs := make([]string, n)
	for i := range reg {
		log[i] = expo(c, log[:i]...)
		reg[i] = m.make(c, log[i])
		encs[i] = m.enc(reg[i])
	}
	scal := make([]*big.Int, 4)
	for i := range scal {
		scal[i] = c.R.Scalar(m.ord)
		if i < 2 {
			scal[i] = I(int64(c.R.Intn(7) - 3))
		}
	}
	sv := make([]string, len(scal))
	for i := range scal {
		sv[i] = scal[i].String()
	}
	trace := ""
	for s := 0; s < steps; s++ {
		d, a, b := c.R.Intn(n), c.R.Intn(n), c.R.Intn(n)
		op := m.ops[c.R.Intn(len(m.ops))]
		ki := c.R.Intn(len(scal))
		if op == "add" && encs[a] == encs[b] && encs[a] != "inf" {
			continue
		}
		trace += fmt.Sprintf("r%d=%s(r%d,r%d,k%d);", d, op, a, b, ki)
		var out any
		// the same operation with a separate receiver and separate operands
		if p := Call(func() { out = m.do(op, reg[d], reg[a], reg[b], scal[ki]) }); p != nil {
			c.Fail("%s %s: %v", m.name, trace, p)
			return
		}
		log[d] = new(big.Int).Mod(effect(op, log[d], log[a], log[b], scal[ki]), m.ord)
		c.Eval(m.name, op, d == a, d == b, a == b, log[d].Sign() == 0)
		c.Count("operations watched")
		if m.enc(out) != m.enc(reg[d]) {
			c.Fail("%s: returned value differs from the receiver after %s", m.name, trace)
			return
		}
		encs[d] = m.enc(reg[d])
		if (d == a || d == b || a == b || s == steps-1) && encs[d] != m.want(log[d]) {
			c.Fail("%s: with aliased operands, r%d is not base^%s after %s", m.name, d, log[d], trace)
			return
		}
		for i := range reg {
			if i != d && m.enc(reg[i]) != encs[i] {
				c.Fail("%s: operand or bystander r%d changed from %.140s to %.140s by the last step of %s", m.name, i, encs[i], m.enc(reg[i]), trace)
				return
			}
		}
		for i := range scal {
			if scal[i].String() != sv[i] {
				c.Fail("%s: scalar k%d changed from %s to %s by the last step of %s", m.name, i, sv[i], scal[i], trace)
				return
			}
		}
	}
	if d := DiffSnap(globalsWant, snapGlobals()); d != "" {
		c.Fail("%s: package-level values changed: %s after %s", m.name, d, trace)
	}
	c.Sample("%s: %.160s", m.name, trace)
}

var p26 = Prop{
	ID:   "P26",
	Rule: "random programs over a few registers and shared scalars of p256, G1, G2 and GT, with every aliasing of receiver and operands, reading operations (Marshal, String, IsZero) interleaved; after every step the values of all bystanders, operands, scalars and package-level generators are compared with those before, and aliased results with the model; the same for pairings and commitments. Distinct: type, operation, aliasing, identity or not.",
	Min:  60,
	Suites: []Suite{
		{"p256", 64, 1200, func(c *C) { program(c, machines[0], 5, 40) }},
		{"G1", 48, 800, func(c *C) { program(c, machines[1], 4, 24) }},
		{"G2", 48, 800, func(c *C) { program(c, machines[2], 4, 16) }},
		{"GT", 32, 500, func(c *C) { program(c, machines[3], 4, 10) }},
		{"mixed", 48, 600, func(c *C) {
			// operations that span groups
			a, b, k := expo(c), expo(c), c.R.Scalar(ref.BnN)
			st := &struct {
				P1, P2 *bn256.G1
				Q1, Q2 *bn256.G2
				T      *bn256.GT
				H      *p256.P256
				X, R   *big.Int
			}{g1el(c, a, c.R.Intn(nReps)), g1el(c, b, c.R.Intn(nReps)), g2el(c, a, c.R.Intn(nReps)), g2el(c, b, c.R.Intn(nReps)), gtEl(c, a), new(p256.P256).ScalarBaseMult(b), c.R.Scalar(ref.BnN), k}
			before := Snapshot(st)
			trace := ""
			for s := 0; s < 4; s++ {
				op := c.R.Intn(9)
				trace += fmt.Sprint(op, ";")
				p := Call(func() {
					switch op {
					case 0:
						t := bn256.Pair(st.P1, st.Q1)
						t.Add(t, t)
						t.Invert(t)
					case 1:
						bn256.PairingCheck([]*bn256.G1{st.P1, st.P2, st.P1}, []*bn256.G2{st.Q1, st.Q2, st.Q2})
					case 2:
						x, _ := util.Commit(st.X, st.R, st.Q1)
						x.Add(x, st.Q2)
					case 3:
						x, _ := util.CommitG1(st.X, st.R, st.H)
						x.Multiply(x, st.H)
						x.Neg(x)
					case 4:
						util.HashSet(st.T, st.Q1, st.Q2)
						util.Hash([]*bn256.GT{st.T}, st.Q1)
						bulletproofs.HashBP(st.H, st.H)
					case 5:
						x := new(bn256.G1).Add(st.P1, new(bn256.G1).SetInfinity())
						x.Add(x, st.P2)
						x.ScalarMult(x, st.X)
						y := new(bn256.G2).Add(new(bn256.G2).SetInfinity(), st.Q1)
						y.Neg(y)
						y.Add(y, y)
						y.ScalarMult(y, st.R)
					case 6:
						x := new(p256.P256).Multiply(st.H, new(p256.P256).SetInfinity())
						x.Double(x)
						x.Neg(x)
						x.SetInfinity()
						y := new(p256.P256).Add(new(p256.P256).SetInfinity(), st.H)
						y.ScalarMult(y, st.X)
					case 7:
						bulletproofs.VectorExp([]*p256.P256{st.H, st.H}, []*big.Int{st.X, st.R})
						bulletproofs.VectorECAdd([]*p256.P256{st.H}, []*p256.P256{st.H})
						bulletproofs.ScalarProduct([]*big.Int{st.X, st.R}, []*big.Int{st.R, st.R})
					case 8:
						x := new(bn256.GT).ScalarMult(st.T, st.R)
						x.Exp(x, st.X)
						x.Neg(x)
						_ = st.T.String() + st.Q1.String() + st.P1.String() + st.H.String()
					}
				})
				c.Eval("mixed", op)
				c.Count("operations watched")
				if p != nil {
					c.Fail("%s: %v", trace, p)
					return
				}
				if d := DiffSnap(before, Snapshot(st)); d != "" {
					c.Fail("operands changed after %s: %s", trace, d)
					return
				}
			}
			if d := DiffSnap(globalsWant, snapGlobals()); d != "" {
				c.Fail("package-level values changed: %s after %s", d, trace)
			}
		}},
	},
}
