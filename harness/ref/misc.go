package ref

import (
	"crypto/sha256"
	"errors"
	"math/big"
	"strconv"
)

// TwosComplement returns the shortest big-endian two's-complement encoding of n.
func TwosComplement(n *big.Int) []byte {
	l := 1
	for {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*l-1))
		if n.Cmp(lim) < 0 && n.Cmp(new(big.Int).Neg(lim)) >= 0 {
			break
		}
		l++
	}
	v := new(big.Int).Set(n)
	if v.Sign() < 0 {
		v.Add(v, new(big.Int).Lsh(big.NewInt(1), uint(8*l)))
	}
	return v.FillBytes(make([]byte, l))
}

// FromTwosComplement is the value of a non-empty two's-complement encoding.
func FromTwosComplement(b []byte) *big.Int {
	v := new(big.Int)
	for i, x := range b {
		if i == 0 && x >= 128 {
			v.SetInt64(int64(x) - 256)
			continue
		}
		v.Mul(v, big.NewInt(256))
		v.Add(v, big.NewInt(int64(x)))
	}
	return v
}

// ParseInt is the value of [-]digits, where the empty string is 0.
func ParseInt(s []byte) (*big.Int, error) {
	neg := false
	i := 0
	if len(s) > 0 && s[0] == '-' {
		neg = true
		i = 1
		if len(s) == 1 {
			return nil, errors.New("malformed")
		}
	}
	v := new(big.Int)
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, errors.New("malformed")
		}
		v.Mul(v, big.NewInt(10))
		v.Add(v, big.NewInt(int64(s[i]-'0')))
	}
	if neg {
		v.Neg(v)
	}
	return v, nil
}

// MapToGroup is try-and-increment hashing to secp256k1.
func MapToGroup(m string) (Pt, bool) {
	for i := 0; i < 256; i++ {
		h := sha256.Sum256([]byte(strconv.Itoa(i) + m))
		x := FromTwosComplement(h[:])
		x.Mod(x, SecP)
		f := new(big.Int).Exp(x, big.NewInt(3), SecP)
		f.Add(f, big.NewInt(7)).Mod(f, SecP)
		// p = 3 mod 4
		e := new(big.Int).Add(SecP, big.NewInt(1))
		e.Rsh(e, 2)
		y := new(big.Int).Exp(f, e, SecP)
		if new(big.Int).Exp(y, big.NewInt(2), SecP).Cmp(f) == 0 {
			return Pt{X: x, Y: y}, true
		}
	}
	return Pt{}, false
}

// Digits returns the l base-u digits of x modulo u^l, least significant first.
func Digits(x *big.Int, u, l int64) []int64 {
	U := big.NewInt(u)
	m := new(big.Int).Exp(U, big.NewInt(l), nil)
	v := new(big.Int).Mod(x, m)
	out := make([]int64, l)
	for i := range out {
		p := new(big.Int).Exp(U, big.NewInt(int64(i)), nil)
		d := new(big.Int).Div(v, p)
		out[i] = d.Mod(d, U).Int64()
	}
	return out
}

// InnerProduct is the sum of a_i b_i modulo n.
func InnerProduct(a, b []*big.Int, n *big.Int) *big.Int {
	s := new(big.Int)
	for i := range a {
		s.Add(s, new(big.Int).Mul(a[i], b[i]))
	}
	return s.Mod(s, n)
}
