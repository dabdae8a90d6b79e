// Package zk wraps the proof systems of the repository, including those whose types are
// not exported, for the monitors.
package zk

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"verif/harness/core"
)

func call(f any, args ...any) []reflect.Value {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	return reflect.ValueOf(f).Call(in)
}

func errOf(v reflect.Value) error {
	e, _ := v.Interface().(error)
	return e
}

// ptr returns a pointer to a fresh variable holding v.
func ptr(v reflect.Value) any {
	n := reflect.New(v.Type())
	n.Elem().Set(v)
	return n.Interface()
}

func val(p any) any { return reflect.ValueOf(p).Elem().Interface() }

// Set is a set membership proof system with one set of parameters.
type Set struct{ P any } // *paramsSet

func SetupSet(s []int64) (*Set, error) {
	o := call(ccs08.SetupSet, s)
	return &Set{ptr(o[0])}, errOf(o[1])
}

// Prove returns a *proofSet.
func (s *Set) Prove(x int64, r *big.Int) (any, error) {
	o := call(ccs08.ProveSet, x, r, val(s.P))
	return ptr(o[0]), errOf(o[1])
}

func (s *Set) Verify(proof any) (bool, error) {
	o := call(ccs08.VerifySet, proof, s.P)
	return o[0].Bool(), errOf(o[1])
}

// UL is the proof system for [0,u^l).
type UL struct{ P any } // *paramsUL

func SetupUL(u, l int64) (*UL, error) {
	o := call(ccs08.SetupUL, u, l)
	return &UL{ptr(o[0])}, errOf(o[1])
}

// Prove returns a *proofUL.
func (s *UL) Prove(x, r *big.Int) (any, error) {
	o := call(ccs08.ProveUL, x, r, val(s.P))
	return ptr(o[0]), errOf(o[1])
}

func (s *UL) Verify(proof any) (bool, error) {
	o := call(ccs08.VerifyUL, proof, s.P)
	return o[0].Bool(), errOf(o[1])
}

// Interval is the ccs08 proof system for [a,b).
type Interval struct{ V *ccs08.Verif }

func NewInterval() *Interval { return &Interval{new(ccs08.Verif)} }

func (s *Interval) Setup(a, b int64) error { return s.V.Z.Setup(a, b) }

func (s *Interval) Prove(x, r *big.Int) error {
	s.V.Input(x, r)
	return s.V.Z.Prove()
}

func (s *Interval) Verify() (bool, error) { return s.V.Z.Verify() }

// Params is a pointer to the params structure.
func (s *Interval) Params() any {
	v, ok := core.Field(s.V, "Z.p")
	if !ok || v.IsNil() {
		return nil
	}
	return v.Interface()
}

// UL is a pointer to the parameters for one half.
func (s *Interval) UL() *UL {
	v, ok := core.Field(s.V, "Z.p.p")
	if !ok || v.IsNil() {
		return nil
	}
	return &UL{v.Interface()}
}

// ULSize is u and l of the parameters.
func (s *UL) Size() (u, l int64, ok bool) {
	u, ok1 := core.Get[int64](s.P, "u")
	l, ok2 := core.Get[int64](s.P, "l")
	return u, l, ok1 && ok2
}

// Half is a pointer to p1 (0) or p2 (1) of the proof.
func (s *Interval) Half(i int) any {
	v, ok := core.Field(s.V, fmt.Sprintf("Z.proof_out.p%d", i+1))
	if !ok {
		return nil
	}
	return v.Addr().Interface()
}

// SetHalf replaces a half by the proof *proofUL.
func (s *Interval) SetHalf(i int, proof any) bool {
	v, ok := core.Field(s.V, fmt.Sprintf("Z.proof_out.p%d", i+1))
	if !ok {
		return false
	}
	v.Set(reflect.ValueOf(proof).Elem())
	return true
}

// Generic is the bulletproof proof system for [a,b).
type Generic struct {
	P any // *bprp
}

func (g *Generic) Prove(x *big.Int) (bulletproofs.ProofBPRP, error) {
	o := call(bulletproofs.ProveGeneric, x, g.P)
	return o[0].Interface().(bulletproofs.ProofBPRP), errOf(o[1])
}

func SetupGeneric(a, b int64) (*Generic, error) {
	p, err := bulletproofs.SetupGeneric(a, b)
	if p == nil {
		if err == nil {
			err = fmt.Errorf("no parameters")
		}
		return nil, err
	}
	return &Generic{p}, err
}

// Outcome of a verification.
type Outcome struct {
	OK    bool
	Err   error
	Panic any
}

func (o Outcome) String() string {
	if o.Panic != nil {
		return fmt.Sprint(o.Panic)
	}
	if o.Err != nil {
		return fmt.Sprintf("%v, error %v", o.OK, o.Err)
	}
	return fmt.Sprint(o.OK)
}

// Accepted is true if the verifier says that the proof is valid.
func (o Outcome) Accepted() bool { return o.OK && o.Panic == nil }

// Kind is a short class of the outcome.
func (o Outcome) Kind() string {
	switch {
	case o.Panic != nil:
		return "panic"
	case o.OK && o.Err != nil:
		return "true+error"
	case o.OK:
		return "true"
	case o.Err != nil:
		return "error"
	}
	return "false"
}

// Do calls a verification function.
func Do(f func() (bool, error)) (o Outcome) {
	o.Panic = core.Call(func() { o.OK, o.Err = f() })
	return
}
