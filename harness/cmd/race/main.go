// Command race runs operations that share parameters, proofs and operands in several
// goroutines, built with the race detector, and compares what they return with what the
// same operations return alone.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/ing-bank/zkrp/bulletproofs"
	bb "github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"
	bc "github.com/ing-bank/zkrp/util/byteconversion"
	. "verif/harness/core"
	"verif/harness/ref"
	"verif/harness/zk"
)

// goid is the number of the calling goroutine. It does not synchronize goroutines.
func goid() int64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return n
}

// streams is a random source with a deterministic stream per goroutine; the map is fixed
// before the goroutines start, so that reading adds no synchronization that hides races.
type streams struct {
	by      map[int64]*Rng
	yields  map[int64]*Rng
	delay   bool
	mu      sync.Mutex
	other   *Rng
	foreign bool
}

func (s *streams) Read(p []byte) (int, error) {
	id := goid()
	if r, ok := s.by[id]; ok {
		if s.delay {
			for k := s.yields[id].Intn(4); k > 2; k-- {
				runtime.Gosched()
			}
		}
		return r.Read(p)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.foreign = true
	return s.other.Read(p)
}

// env is what the goroutines share.
type env struct {
	BP      bulletproofs.BulletProofSetupParams
	Proofs  []*bulletproofs.BulletProof
	IPs     []*bulletproofs.InnerProductProof
	Gen     *zk.Generic
	GProofs []*bulletproofs.ProofBPRP
	Set     *zk.Set
	SProofs []any
	UL      *zk.UL
	UProofs []any
	Iv      *zk.Interval
	G1      []*bn256.G1
	G2      []*bn256.G2
	GT      []*bn256.GT
	P       []*p256.P256
	K       []*big.Int
	V1, V2  []*big.Int
	Key     bb.Keypair
	Sigs    []*bn256.G2
	Texts   [][]byte
}

// op is one operation on shared values with arguments drawn from the goroutine's own stream.
type op struct {
	name string
	f    func(e *env, r *Rng) string
}

func res(v ...any) string { return fmt.Sprint(v...) }

func vr(f func() (bool, error)) string {
	return zk.Do(f).String()
}

func pick[T any](r *Rng, s []T) T { return s[r.Intn(len(s))] }

const bits = 4

var bpOps = []op{
	{"Verify", func(e *env, r *Rng) string { p := pick(r, e.Proofs); return vr(p.Verify) }},
	{"Verify", func(e *env, r *Rng) string { p := pick(r, e.Proofs); return vr(p.Verify) }},
	{"InnerProductProof.Verify", func(e *env, r *Rng) string { p := pick(r, e.IPs); return vr(p.Verify) }},
	{"MarshalJSON", func(e *env, r *Rng) string { b, err := json.Marshal(pick(r, e.Proofs)); return res(string(b), err) }},
	{"params JSON", func(e *env, r *Rng) string { b, err := json.Marshal(e.BP); return res(string(b), err) }},
	{"Unmarshal+Verify", func(e *env, r *Rng) string {
		var q bulletproofs.BulletProof
		err := json.Unmarshal(pick(r, e.Texts), &q)
		return res(err, vr(q.Verify))
	}},
	{"String", func(e *env, r *Rng) string { return fmt.Sprint(pick(r, e.BP.Gg), e.BP.H, pick(r, e.Proofs).V) }},
	{"Prove", func(e *env, r *Rng) string {
		p, err := bulletproofs.Prove(r.Bits(bits), e.BP)
		return res(Digest(&p), err, vr(p.Verify))
	}},
	{"Prove", func(e *env, r *Rng) string {
		p, err := bulletproofs.Prove(e.K[0], e.BP)
		return res(Digest(&p), err)
	}},
	{"params used for an inner product", func(e *env, r *Rng) string {
		v, err := bulletproofs.VectorExp(e.BP.Gg, e.V1[:len(e.BP.Gg)])
		return res(PStr(v), err)
	}},
}

var genericOps = []op{
	{"ProofBPRP.Verify", func(e *env, r *Rng) string { p := pick(r, e.GProofs); return vr(p.Verify) }},
	{"ProofBPRP JSON", func(e *env, r *Rng) string { b, err := json.Marshal(pick(r, e.GProofs)); return res(string(b), err) }},
	{"ProveGeneric", func(e *env, r *Rng) string {
		p, err := e.Gen.Prove(I(18 + int64(r.Intn(182))))
		return res(Digest(&p), err)
	}},
}

var coldOps = []op{
	{"Setup", func(e *env, r *Rng) string {
		p, err := bulletproofs.Setup(1 << uint([]int{1, 2, 4, 8}[r.Intn(4)]))
		return res(Digest(&p), err)
	}},
	{"SetupGeneric", func(e *env, r *Rng) string {
		p, err := zk.SetupGeneric(int64(r.Intn(3)), 5)
		return res(Digest(p), err)
	}},
	{"Setup+Prove+Verify", func(e *env, r *Rng) string {
		p, err := bulletproofs.Setup(4)
		if err != nil {
			return err.Error()
		}
		q, err := bulletproofs.Prove(I(int64(r.Intn(6))), p)
		return res(Digest(&q), err, vr(q.Verify))
	}},
	{"MapToGroup", func(e *env, r *Rng) string {
		p, err := p256.MapToGroup(fmt.Sprint("seed", r.Intn(6)))
		return res(PStr(p), err)
	}},
	{"HashBP", func(e *env, r *Rng) string {
		a, b, err := bulletproofs.HashBP(new(p256.P256).ScalarBaseMult(I(int64(r.Intn(4)))), new(p256.P256).ScalarBaseMult(I(3)))
		return res(a, b, err)
	}},
	{"CommitG1", func(e *env, r *Rng) string {
		h, _ := p256.MapToGroup("h")
		p, err := util.CommitG1(I(int64(r.Intn(3))), I(int64(r.Intn(3))), h)
		return res(PStr(p), err)
	}},
	{"Commit", func(e *env, r *Rng) string {
		p, err := util.Commit(r.Bits(5), r.Bits(5), new(bn256.G2).ScalarBaseMult(I(5)))
		return res(Digest(&p), err)
	}},
	{"Keygen", func(e *env, r *Rng) string { k, err := bb.Keygen(); return res(Digest(&k), err) }},
	{"SetupSet", func(e *env, r *Rng) string {
		s, err := zk.SetupSet([]int64{int64(r.Intn(3))})
		return res(Digest(s), err)
	}},
	{"SetupUL", func(e *env, r *Rng) string {
		s, err := zk.SetupUL(2, 1+int64(r.Intn(2)))
		return res(Digest(s), err)
	}},
	{"decode points", func(e *env, r *Rng) string {
		x := new(bn256.G1).ScalarBaseMult(r.Bits(9))
		y, ok := new(bn256.G1).Unmarshal(x.Marshal())
		return res(ok, Digest(&y))
	}},
	{"Pair", func(e *env, r *Rng) string {
		t := bn256.Pair(new(bn256.G1).ScalarBaseMult(r.Bits(4)), new(bn256.G2).ScalarBaseMult(r.Bits(4)))
		return res(Digest(&t))
	}},
}

var setOps = []op{
	{"VerifySet", func(e *env, r *Rng) string {
		p := pick(r, e.SProofs)
		return vr(func() (bool, error) { return e.Set.Verify(p) })
	}},
	{"ProveSet", func(e *env, r *Rng) string {
		p, err := e.Set.Prove(pick(r, []int64{3, -8}), r.Below(ref.BnN))
		return res(Digest(p), err)
	}},
	{"ProveSet of shared blinding", func(e *env, r *Rng) string {
		p, err := e.Set.Prove(3, e.K[1])
		return res(Digest(p), err, vr(func() (bool, error) { return e.Set.Verify(p) }))
	}},
	{"read", func(e *env, r *Rng) string { return Digest(pick(r, e.SProofs)) }},
}

var ulOps = []op{
	{"VerifyUL", func(e *env, r *Rng) string {
		p := pick(r, e.UProofs)
		return vr(func() (bool, error) { return e.UL.Verify(p) })
	}},
	{"ProveUL", func(e *env, r *Rng) string {
		p, err := e.UL.Prove(I(int64(r.Intn(9))), r.Below(ref.BnN))
		return res(Digest(p), err)
	}},
	{"ProveUL of shared secret", func(e *env, r *Rng) string {
		p, err := e.UL.Prove(e.K[2], e.K[1])
		return res(Digest(p), err, vr(func() (bool, error) { return e.UL.Verify(p) }))
	}},
	{"read", func(e *env, r *Rng) string { return Digest(pick(r, e.UProofs)) }},
}

var ivOps = []op{
	{"Verify", func(e *env, r *Rng) string { return vr(e.Iv.Verify) }},
	{"Setup", func(e *env, r *Rng) string { return res(zk.NewInterval().Setup(5, 4)) }},
	{"read", func(e *env, r *Rng) string { return Digest(e.Iv.V) }},
	{"halves", func(e *env, r *Rng) string {
		ul, p := e.Iv.UL(), e.Iv.Half(r.Intn(2))
		if ul == nil || p == nil {
			return ""
		}
		return vr(func() (bool, error) { return ul.Verify(p) })
	}},
	{"ProveUL with the interval's parameters", func(e *env, r *Rng) string {
		ul := e.Iv.UL()
		if ul == nil {
			return ""
		}
		p, err := ul.Prove(I(int64(r.Intn(50))), r.Bits(30))
		return res(Digest(p), err)
	}},
}

var bnOps = []op{
	{"G1.Add", func(e *env, r *Rng) string { x := new(bn256.G1).Add(pick(r, e.G1), pick(r, e.G1)); return Digest(&x) }},
	{"G1.Neg", func(e *env, r *Rng) string { x := new(bn256.G1).Neg(pick(r, e.G1)); return Digest(&x) }},
	{"G1.ScalarMult", func(e *env, r *Rng) string {
		x := new(bn256.G1).ScalarMult(pick(r, e.G1), pick(r, e.K))
		return Digest(&x)
	}},
	{"G1.Marshal", func(e *env, r *Rng) string { return res(pick(r, e.G1).Marshal()) }},
	{"G1.String", func(e *env, r *Rng) string { return pick(r, e.G1).String() }},
	{"G1.IsZero", func(e *env, r *Rng) string { return res(pick(r, e.G1).IsZero()) }},
	{"G2.Add", func(e *env, r *Rng) string { x := new(bn256.G2).Add(pick(r, e.G2), pick(r, e.G2)); return Digest(&x) }},
	{"G2.Neg", func(e *env, r *Rng) string { x := new(bn256.G2).Neg(pick(r, e.G2)); return Digest(&x) }},
	{"G2.ScalarMult", func(e *env, r *Rng) string {
		x := new(bn256.G2).ScalarMult(pick(r, e.G2), pick(r, e.K))
		return Digest(&x)
	}},
	{"G2.Marshal", func(e *env, r *Rng) string { return res(pick(r, e.G2).Marshal()) }},
	{"G2.String", func(e *env, r *Rng) string { return pick(r, e.G2).String() }},
	{"G2.IsZero", func(e *env, r *Rng) string { return res(pick(r, e.G2).IsZero()) }},
	{"base", func(e *env, r *Rng) string {
		k := pick(r, e.K)
		x, y := new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(k)
		return res(Digest(&x), Digest(&y))
	}},
	{"Pair", func(e *env, r *Rng) string { x := bn256.Pair(pick(r, e.G1), pick(r, e.G2)); return Digest(&x) }},
	{"PairingCheck", func(e *env, r *Rng) string {
		a, b := pick(r, e.G1), pick(r, e.G2)
		return res(bn256.PairingCheck([]*bn256.G1{a, a}, []*bn256.G2{b, new(bn256.G2).Neg(b)}))
	}},
	{"GT.Add", func(e *env, r *Rng) string { x := new(bn256.GT).Add(pick(r, e.GT), pick(r, e.GT)); return Digest(&x) }},
	{"GT.ScalarMult", func(e *env, r *Rng) string {
		x := new(bn256.GT).ScalarMult(pick(r, e.GT), pick(r, e.K[:2]))
		return Digest(&x)
	}},
	{"GT.Neg", func(e *env, r *Rng) string { x := new(bn256.GT).Neg(pick(r, e.GT)); return Digest(&x) }},
	{"GT.Invert", func(e *env, r *Rng) string { x := new(bn256.GT).Invert(pick(r, e.GT)); return Digest(&x) }},
	{"GT.Marshal", func(e *env, r *Rng) string {
		t := pick(r, e.GT)
		return res(t.Marshal(), t.IsOne(), t.IsZero(), t.String())
	}},
	{"Unmarshal", func(e *env, r *Rng) string {
		a, ok := new(bn256.G1).Unmarshal(e.Texts[0])
		b, ok2 := new(bn256.G2).Unmarshal(e.Texts[1])
		t, ok3 := new(bn256.GT).Unmarshal(e.Texts[2])
		return res(ok, ok2, ok3, Digest(&a), Digest(&b), Digest(&t))
	}},
	{"constants", func(e *env, r *Rng) string {
		return res(Digest(&util.G1), Digest(&util.G2), Digest(&util.E), bn256.Order, bn256.P)
	}},
	{"Commit", func(e *env, r *Rng) string {
		x, err := util.Commit(pick(r, e.K), pick(r, e.K), pick(r, e.G2))
		return res(Digest(&x), err)
	}},
	{"HashSet", func(e *env, r *Rng) string {
		x, err := util.HashSet(pick(r, e.GT), e.G2...)
		y, err2 := util.Hash(e.GT, e.G2...)
		return res(x, err, y, err2)
	}},
}

var pOps = []op{
	{"Multiply", func(e *env, r *Rng) string { return PStr(new(p256.P256).Multiply(pick(r, e.P), pick(r, e.P))) }},
	{"Add", func(e *env, r *Rng) string { return PStr(new(p256.P256).Add(e.P[0], e.P[1+r.Intn(len(e.P)-1)])) }},
	{"Double", func(e *env, r *Rng) string { return PStr(new(p256.P256).Double(pick(r, e.P))) }},
	{"Neg", func(e *env, r *Rng) string { return PStr(new(p256.P256).Neg(pick(r, e.P))) }},
	{"ScalarMult", func(e *env, r *Rng) string { return PStr(new(p256.P256).ScalarMult(pick(r, e.P), pick(r, e.K))) }},
	{"ScalarMult", func(e *env, r *Rng) string {
		return PStr(new(p256.P256).ScalarMult(pick(r, e.P), r.Scalar(ref.SecN)))
	}},
	{"ScalarBaseMult", func(e *env, r *Rng) string { return PStr(new(p256.P256).ScalarBaseMult(pick(r, e.K))) }},
	{"String", func(e *env, r *Rng) string { return pick(r, e.P).String() }},
	{"IsZero", func(e *env, r *Rng) string { p := pick(r, e.P); return res(p.IsZero(), p.IsOnCurve()) }},
	{"CommitG1", func(e *env, r *Rng) string {
		p, err := util.CommitG1(pick(r, e.K), pick(r, e.K), pick(r, e.P))
		return res(PStr(p), err)
	}},
	{"HashBP", func(e *env, r *Rng) string { a, b, err := bulletproofs.HashBP(e.P...); return res(a, b, err) }},
	{"MapToGroup", func(e *env, r *Rng) string {
		p, err := p256.MapToGroup(fmt.Sprint("seed", r.Intn(40)))
		return res(PStr(p), err)
	}},
	{"curve", func(e *env, r *Rng) string {
		c := p256.S256()
		return res(c.N, c.P, c.B, c.Gx, c.Gy, c.BitSize, bulletproofs.ORDER)
	}},
	{"VectorExp", func(e *env, r *Rng) string {
		n := 1 + r.Intn(len(e.P))
		v, err := bulletproofs.VectorExp(e.P[:n], e.V1[:n])
		return res(PStr(v), err)
	}},
	{"VectorECAdd", func(e *env, r *Rng) string {
		v, err := bulletproofs.VectorECAdd(e.P, e.P)
		return res(Digest(&v), err)
	}},
	{"JSON", func(e *env, r *Rng) string { b, err := json.Marshal(e.P); return res(string(b), err) }},
}

var bbOps = []op{
	{"Sign", func(e *env, r *Rng) string {
		s, err := bb.Sign(r.Scalar(ref.BnN), e.Key.Privk)
		return res(Digest(&s), err)
	}},
	{"Sign shared", func(e *env, r *Rng) string { s, err := bb.Sign(pick(r, e.K), e.Key.Privk); return res(Digest(&s), err) }},
	{"verify", func(e *env, r *Rng) string {
		i := r.Intn(len(e.Sigs))
		ok, err := bb.VerifVerify(e.Sigs[i], e.K[r.Intn(2)], e.Key.Pubk)
		return res(ok, err)
	}},
	{"Keygen", func(e *env, r *Rng) string { k, err := bb.Keygen(); return res(Digest(&k), err) }},
}

var utilOps = []op{
	{"Decompose", func(e *env, r *Rng) string {
		x := e.K[3+r.Intn(3)]
		d, err := util.Decompose(x, 2+int64(r.Intn(60)), 12)
		return res(d, err)
	}},
	{"VectorAdd", func(e *env, r *Rng) string { v, err := bulletproofs.VectorAdd(e.V1, e.V2); return res(v, err) }},
	{"VectorSub", func(e *env, r *Rng) string { v, err := bulletproofs.VectorSub(e.V1, e.V2); return res(v, err) }},
	{"VectorMul", func(e *env, r *Rng) string { v, err := bulletproofs.VectorMul(e.V1, e.V2); return res(v, err) }},
	{"VectorScalarMul", func(e *env, r *Rng) string {
		v, err := bulletproofs.VectorScalarMul(e.V1, pick(r, e.K))
		return res(v, err)
	}},
	{"ScalarProduct", func(e *env, r *Rng) string { v, err := bulletproofs.ScalarProduct(e.V1, e.V2); return res(v, err) }},
	{"VectorCopy", func(e *env, r *Rng) string { v, err := bulletproofs.VectorCopy(pick(r, e.K), 9); return res(v, err) }},
	{"bytes", func(e *env, r *Rng) string {
		b := bc.ToByteArray(pick(r, e.V1))
		x, err := bc.FromByteArray(b)
		y, err2 := bc.FromByteArray(e.Texts[0])
		return res(b, x, err, y, err2)
	}},
	{"parse", func(e *env, r *Rng) string {
		x, err := bc.ParseInput(e.Texts[1])
		y, err2 := bc.ConvertToBigInt(e.Texts[2])
		return res(x, err, y, err2)
	}},
	{"bn", func(e *env, r *Rng) string {
		a, b, m := pick(r, e.V1), pick(r, e.V2), pick(r, e.K[3:])
		h, err := bn.CalculateHash(a, b)
		if m.Sign() <= 0 {
			m = ref.SecN
		}
		return res(bn.Add(a, b), bn.Sub(a, b), bn.Multiply(a, b), bn.Mod(a, m), bn.ModInverse(a, ref.SecN), bn.ModPow(a, b, ref.SecN), h, err)
	}},
}

// prepare makes the shared values a case needs.
func prepare(c *C, want string) *env {
	e := &env{}
	must := func(err error) {
		if err != nil {
			c.Fail("preparing %s: %v", want, err)
		}
	}
	has := func(s string) bool { return strings.Contains(want, s) }
	e.K = []*big.Int{c.R.Bits(bits), c.R.Below(ref.BnN), I(5), c.R.Bits(60), c.R.Bits(200), new(big.Int).Neg(c.R.Bits(90)), c.R.Scalar(ref.SecN), I(0), new(big.Int).Add(ref.SecN, I(4))}
	for i := 0; i < 8; i++ {
		e.V1, e.V2 = append(e.V1, c.R.Scalar(ref.SecN)), append(e.V2, c.R.Scalar(ref.SecN))
	}
	if has("bp") {
		var err error
		e.BP, err = bulletproofs.Setup(1 << bits)
		must(err)
		for i := 0; i < 3; i++ {
			p, err := bulletproofs.Prove(c.R.Bits(bits), e.BP)
			must(err)
			if i == 2 {
				p.Taux = new(big.Int).Add(p.Taux, I(1))
			}
			b, err := json.Marshal(p)
			must(err)
			e.Proofs, e.Texts = append(e.Proofs, &p), append(e.Texts, b)
		}
		for i := 0; i < 2; i++ {
			a, b := []*big.Int{I(2), I(3)}, []*big.Int{I(5), c.R.Bits(100)}
			ip := new(big.Int).Add(I(10), new(big.Int).Mul(b[1], I(3)))
			prm, err := bulletproofs.VerifSetupInnerProduct(nil, nil, nil, ip, 2)
			must(err)
			P := bulletproofs.VerifCommitInnerProduct(prm.Gg, prm.Hh, a, b)
			p, err := bulletproofs.VerifProveInnerProduct(a, b, P, prm)
			must(err)
			e.IPs = append(e.IPs, &p)
		}
	}
	if has("generic") {
		var err error
		e.Gen, err = zk.SetupGeneric(18, 200)
		must(err)
		p, err := e.Gen.Prove(I(18))
		must(err)
		q, err := e.Gen.Prove(I(201))
		if err == nil {
			e.GProofs = append(e.GProofs, &q)
		}
		e.GProofs = append(e.GProofs, &p)
	}
	if has("set") {
		var err error
		e.Set, err = zk.SetupSet([]int64{3, -8})
		must(err)
		for i := 0; i < 2; i++ {
			p, err := e.Set.Prove(3, c.R.Bits(200))
			must(err)
			e.SProofs = append(e.SProofs, p)
		}
		Set(e.SProofs[1], "zr", I(1))
	}
	if has("ul") {
		var err error
		e.UL, err = zk.SetupUL(3, 2)
		must(err)
		for i := 0; i < 2; i++ {
			p, err := e.UL.Prove(I(int64(4+i)), c.R.Bits(200))
			must(err)
			e.UProofs = append(e.UProofs, p)
		}
		Set(e.UProofs[1], "zr", I(1))
	}
	if has("interval") {
		e.Iv = zk.NewInterval()
		must(e.Iv.Setup(10, 40))
		must(e.Iv.Prove(I(22), c.R.Bits(100)))
	}
	if has("bn") {
		for i := 0; i < 4; i++ {
			k, l := c.R.Below(ref.BnN), c.R.Below(ref.BnN)
			e.G1 = append(e.G1, new(bn256.G1).ScalarBaseMult(k))
			e.G2 = append(e.G2, new(bn256.G2).ScalarBaseMult(l))
		}
		e.G1 = append(e.G1, new(bn256.G1).SetInfinity(), new(bn256.G1).ScalarBaseMult(I(-2)))
		e.G2 = append(e.G2, new(bn256.G2).SetInfinity(), new(bn256.G2).ScalarBaseMult(I(-2)))
		e.GT = append(e.GT, bn256.Pair(e.G1[0], e.G2[0]), bn256.Pair(e.G1[1], e.G2[1]))
		e.Texts = [][]byte{e.G1[0].Marshal(), e.G2[0].Marshal(), e.GT[0].Marshal()}
	}
	if has("p256") {
		for i := 0; i < 7; i++ {
			e.P = append(e.P, new(p256.P256).ScalarBaseMult(c.R.Below(ref.SecN)))
		}
		e.P = append(e.P, new(p256.P256).SetInfinity())
	}
	if has("bb") {
		var err error
		e.Key, err = bb.Keygen()
		must(err)
		for i := 0; i < 2; i++ {
			s, err := bb.Sign(e.K[i], e.Key.Privk)
			must(err)
			e.Sigs = append(e.Sigs, s)
		}
	}
	if want == "util" {
		e.Texts = [][]byte{c.R.Bytes(33), []byte("1,-2,34567890123456789012345678901234567890"), []byte("-987654321098765432109876543210")}
	}
	return e
}

const workers = 8

// run lets each goroutine perform its list of operations on e; all at the same time, or one
// goroutine after the other.
func run(c *C, e *env, ops []op, perG int, together bool) (out [workers][]string, names [workers][]string, src *streams) {
	src = &streams{by: map[int64]*Rng{}, yields: map[int64]*Rng{}, delay: together, other: NewRng(c.Seed + "/other")}
	type hello struct {
		g  int
		id int64
	}
	ids := make(chan hello)
	var start [workers]chan bool
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		g := g
		start[g] = make(chan bool)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ids <- hello{g, goid()}
			r := NewRng(fmt.Sprint(c.Seed, "/args/", g))
			<-start[g]
			for k := 0; k < perG; k++ {
				o := ops[r.Intn(len(ops))]
				if perG >= len(ops) && k < len(ops) {
					o = ops[(k+g*3)%len(ops)] // everyone does everything, in different orders
				}
				names[g] = append(names[g], o.name)
				var s string
				if p := Call(func() { s = o.f(e, r) }); p != nil {
					s = fmt.Sprint(p)
				}
				out[g] = append(out[g], s)
			}
			if !together {
				ids <- hello{g, 0}
			}
		}()
	}
	for i := 0; i < workers; i++ {
		h := <-ids
		src.by[h.id] = NewRng(fmt.Sprint(c.Seed, "/draws/", h.g))
		src.yields[h.id] = NewRng(fmt.Sprint(c.Seed, "/yields/", h.g))
	}
	rand.Reader = src
	for g := range start {
		close(start[g])
		if !together {
			<-ids
		}
	}
	wg.Wait()
	return
}

func together(what string, ops []op, perG int) func(c *C) {
	return func(c *C) {
		runtime.GOMAXPROCS([]int{8, 4, 2, 8}[c.Idx%4])
		e := prepare(c, what)
		if c.Failed() {
			return
		}
		alone := Clone(e)
		before := Snapshot(alone)
		got, names, src := run(c, e, ops, perG, true)
		want, _, src2 := run(c, alone, ops, perG, false)
		var again [workers][]string
		for g := range got {
			for k := range got[g] {
				c.Eval(what, names[g][k], got[g][k])
				c.Count("operations: " + names[g][k])
				if k >= len(want[g]) || got[g][k] == want[g][k] {
					continue
				}
				if src.foreign || src2.foreign {
					c.Count("results not compared")
					continue
				}
				// Only results that the same random draws determine can be compared.
				if again[g] == nil {
					a2, _, s2 := run(c, Clone(alone), ops, perG, false)
					again = a2
					if s2.foreign {
						c.Count("results not compared")
						continue
					}
				}
				if k >= len(again[g]) || again[g][k] != want[g][k] {
					c.Count("results not compared")
					continue
				}
				c.Fail("%s, goroutine %d, operation %d (%s): %.300s; alone: %.300s", what, g, k, names[g][k], got[g][k], want[g][k])
			}
		}
		if d := DiffSnap(before, Snapshot(e)); d != "" {
			c.Fail("%s: the shared values were changed: %s", what, d)
		}
		c.Sample("%s: %d goroutines x %d operations, first results %.60s", what, workers, perG, got[0][0])
	}
}

func all(s ...[]op) (out []op) {
	for _, x := range s {
		out = append(out, x...)
	}
	return
}

var p33 = Prop{
	ID:    "P33",
	Fresh: true,
	Rule:  "8 goroutines perform operations on shared parameters, proofs, points, keys and numbers, or make first use of the package (cold), in a build with the race detector; each case in a process of its own with 2, 4 or 8 processors and yields injected in random draws. Oracles: the race detector; the results of the same goroutines one after another on a copy made before (each has its own deterministic random stream); the shared values afterwards. Distinct: (workload, operation, result).",
	Min:   300,
	Suites: []Suite{
		{"interval", 2, 10, together("interval", ivOps, 2)},
		{"generic", 3, 24, together("generic", genericOps, 2)},
		{"bp", 6, 60, together("bp", bpOps, 10)},
		{"set", 5, 50, together("set", setOps, 2)},
		{"ul", 5, 50, together("ul", ulOps, 1)},
		{"cold", 12, 100, together("cold", coldOps, 12)},
		{"cold few", 8, 100, together("cold", coldOps, 3)},
		{"bn256", 8, 80, together("bn", bnOps, 28)},
		{"p256", 8, 80, together("p256", pOps, 60)},
		{"signatures", 5, 40, together("bb", bbOps, 5)},
		{"util", 6, 60, together("util", utilOps, 200)},
		{"mixed", 5, 50, together("bp set ul p256 bb", all(bpOps, setOps, ulOps, pOps[:13], bbOps, coldOps), 4)},
	},
}

func main() { Main([]Prop{p33}) }
