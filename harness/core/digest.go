package core

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
)

var (
	tBig = reflect.TypeOf(big.Int{})
	tP   = reflect.TypeOf(p256.P256{})
	tG1  = reflect.TypeOf(bn256.G1{})
	tG2  = reflect.TypeOf(bn256.G2{})
	tGT  = reflect.TypeOf(bn256.GT{})
)

// open makes a (possibly unexported) field readable and writable.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// addressable returns v, or an addressable copy of it.
func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// Leaf is a group element or number found in a value.
type Leaf struct {
	Path string
	V    reflect.Value // addressable value of pointer type (*big.Int, *P256, ...) or of a basic kind
}

// Leaves lists everything that a value consists of: pointers to numbers and group
// elements, and basic values. x should be a pointer.
func Leaves(x any) []Leaf {
	var out []Leaf
	walk("", reflect.ValueOf(x), &out, 0)
	return out
}

func isLeafStruct(t reflect.Type) bool {
	return t == tBig || t == tP || t == tG1 || t == tG2 || t == tGT
}

func walk(path string, v reflect.Value, out *[]Leaf, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if isLeafStruct(v.Type().Elem()) {
			*out = append(*out, Leaf{path, v})
			return
		}
		if v.IsNil() {
			*out = append(*out, Leaf{path, v})
			return
		}
		walk(path, v.Elem(), out, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			walk(path, addressable(v.Elem()), out, depth+1)
		}
	case reflect.Struct:
		if isLeafStruct(v.Type()) {
			*out = append(*out, Leaf{path, v.Addr()})
			return
		}
		v = addressable(v)
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Name
			p := name
			if path != "" {
				p = path + "." + name
			}
			walk(p, open(v.Field(i)), out, depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(fmt.Sprintf("%s[%d]", path, i), open(v.Index(i)), out, depth+1)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			walk(fmt.Sprintf("%s[%v]", path, k), addressable(v.MapIndex(k)), out, depth+1)
		}
	default:
		*out = append(*out, Leaf{path, v})
	}
}

// Value is a canonical text for the mathematical value of a leaf.
func (l Leaf) Value() (s string) {
	if l.V.Kind() == reflect.Ptr {
		if l.V.IsNil() {
			return "nil"
		}
		switch x := l.V.Interface().(type) {
		case *big.Int:
			return "i" + x.String()
		case *p256.P256:
			return PStr(x)
		case *bn256.G1:
			return "G1" + marshal(func() []byte { return x.Marshal() })
		case *bn256.G2:
			return "G2" + marshal(func() []byte { return x.Marshal() })
		case *bn256.GT:
			return "GT" + marshal(func() []byte { return x.Marshal() })
		}
		return "?"
	}
	return fmt.Sprint(l.V)
}

func marshal(f func() []byte) string {
	s := "undefined"
	Call(func() { s = fmt.Sprintf("%x", f()) })
	return s
}

// PStr is the value of a secp256k1 point (infinity has two representations).
func PStr(p *p256.P256) string {
	if p == nil {
		return "nil"
	}
	if p.X == nil || p.Y == nil || (p.X.Sign() == 0 && p.Y.Sign() == 0) {
		return "inf"
	}
	return "(" + p.X.Text(16) + "," + p.Y.Text(16) + ")"
}

// Digest identifies the mathematical value of x.
func Digest(x any) string {
	var b strings.Builder
	for _, l := range Leaves(x) {
		b.WriteString(l.Path)
		b.WriteString("=")
		b.WriteString(l.Value())
		b.WriteString("\n")
	}
	h := sha256.Sum256([]byte(b.String()))
	return fmt.Sprintf("%x", h[:12])
}

// Diff names the first leaf whose value differs from the snapshot.
func Snapshot(x any) map[string]string {
	m := map[string]string{}
	for _, l := range Leaves(x) {
		m[l.Path] = l.Value()
	}
	return m
}

func DiffSnap(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			d = append(d, fmt.Sprintf("%s: %.90s -> %.90s", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k+" appeared")
		}
	}
	sort.Strings(d)
	if len(d) > 4 {
		d = append(d[:4], fmt.Sprintf("and %d more", len(d)-4))
	}
	return strings.Join(d, "; ")
}

// Clone makes a deep copy of the value x points to, and returns a pointer of the same type.
func Clone[T any](x *T) *T {
	v := deepCopy(reflect.ValueOf(x), 0)
	return v.Interface().(*T)
}

// CloneAny is Clone for a pointer of unknown type.
func CloneAny(x any) any { return deepCopy(reflect.ValueOf(x), 0).Interface() }

func deepCopy(v reflect.Value, depth int) reflect.Value {
	if depth > 60 {
		return v
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if v.Type().Elem() == tBig {
			return reflect.ValueOf(new(big.Int).Set(v.Interface().(*big.Int)))
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem(), depth+1))
		return n
	case reflect.Struct:
		src := addressable(v)
		n := reflect.New(v.Type()).Elem()
		n.Set(src)
		if v.Type() == tBig {
			p := open(n).Addr().Interface().(*big.Int)
			q := new(big.Int).Set(src.Addr().Interface().(*big.Int))
			*p = *q
			return n
		}
		for i := 0; i < src.NumField(); i++ {
			open(n.Field(i)).Set(deepCopy(open(src.Field(i)), depth+1))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(open(v.Index(i)), depth+1))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(addressable(v.MapIndex(k)), depth+1))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		return deepCopy(v.Elem(), depth+1)
	}
	return v
}

// Field returns the (possibly unexported) field of the struct x points to, following a
// dotted path; ok is false if there is no such field.
func Field(x any, path string) (reflect.Value, bool) {
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	for _, name := range strings.Split(path, ".") {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return v, false
		}
		v = addressable(v)
		f := v.FieldByName(name)
		if !f.IsValid() {
			return f, false
		}
		v = open(f)
	}
	return v, true
}

// Get is the value of a field as T.
func Get[T any](x any, path string) (t T, ok bool) {
	v, ok := Field(x, path)
	if !ok {
		return t, false
	}
	t, ok = v.Interface().(T)
	return t, ok
}

// Set assigns a field.
func Set(x any, path string, val any) bool {
	v, ok := Field(x, path)
	if !ok || !v.CanSet() {
		return false
	}
	n := reflect.ValueOf(val)
	if !n.IsValid() || n.Type() != v.Type() {
		return false
	}
	v.Set(n)
	return true
}
