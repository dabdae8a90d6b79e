package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	bc "github.com/ing-bank/zkrp/util/byteconversion"
	. "verif/harness/core"
	"verif/harness/ref"
)

// hostileInt picks integers around byte and word boundaries, of both signs.
func hostileInt(r *Rng) *big.Int {
	var x *big.Int
	switch r.Intn(8) {
	case 0:
		x = I(int64(r.Intn(600)) - 300)
	case 1: // around a power of two on a byte boundary
		x = Pow2(8 * (1 + r.Intn(40)))
	case 2: // around the sign bit of a byte boundary
		x = Pow2(8*(1+r.Intn(40)) - 1)
	case 3:
		x = Pow2(r.Intn(600))
	case 4: // bytes of 0x00 and 0xff
		b := make([]byte, 1+r.Intn(12))
		for i := range b {
			b[i] = []byte{0, 0xff, 0x80, 0x7f, 1, 0xfe}[r.Intn(6)]
		}
		x = new(big.Int).SetBytes(b)
	case 5:
		x = r.Bits(1 + r.Intn(4096))
	case 6:
		x = new(big.Int).Mul(ref.SecN, I(int64(r.Intn(4))))
	default:
		x = r.Bits(1 + r.Intn(300))
	}
	x = new(big.Int).Add(x, I(int64(r.Intn(5))-2))
	if r.Bool() {
		x.Neg(x)
	}
	return x
}

func intClass(x *big.Int) string {
	return fmt.Sprint(x.Sign(), x.BitLen()%8, min(x.BitLen()/8, 40))
}

func checkTo(c *C, n *big.Int) {
	in := new(big.Int).Set(n)
	var got []byte
	if p := Call(func() { got = bc.ToByteArray(in) }); p != nil {
		c.Fail("ToByteArray(%s): %v", n, p)
		return
	}
	want := ref.TwosComplement(n)
	if !bytes.Equal(got, want) {
		c.Fail("ToByteArray(%s) = %x, want %x", n, got, want)
	}
	if in.Cmp(n) != 0 {
		c.Fail("ToByteArray(%s) changed its argument to %s", n, in)
	}
	keep := append([]byte(nil), got...)
	back, err := bc.FromByteArray(got)
	if err != nil || back.Cmp(n) != 0 {
		c.Fail("FromByteArray(ToByteArray(%s)) = %v, error %v", n, back, err)
	}
	if !bytes.Equal(got, keep) {
		c.Fail("FromByteArray(%x) changed its argument to %x", keep, got)
	}
	for i := range got {
		got[i] ^= 0x5a
	}
	if in.Cmp(n) != 0 {
		c.Fail("writing to the result of ToByteArray(%s) changed the argument to %s", n, in)
	}
	c.Eval("to", intClass(n))
	c.Count("integers encoded and decoded")
}

func checkFrom(c *C, b []byte) {
	in := append([]byte(nil), b...)
	var got *big.Int
	var err error
	if p := Call(func() { got, err = bc.FromByteArray(in) }); p != nil {
		c.Fail("FromByteArray(%x): %v", b, p)
		return
	}
	if !bytes.Equal(in, b) {
		c.Fail("FromByteArray(%x) changed its argument to %x", b, in)
	}
	checkFlip(c, b)
	if len(b) == 0 {
		if err == nil {
			c.Fail("FromByteArray of an empty array: no error")
		}
		c.Eval("from empty")
		return
	}
	want := ref.FromTwosComplement(b)
	if err != nil || got == nil || got.Cmp(want) != 0 {
		c.Fail("FromByteArray(%x) = %v, error %v, want %s", b, got, err, want)
		return
	}
	keep := new(big.Int).Set(got)
	for i := range in {
		in[i] ^= 0xa5
	}
	if got.Cmp(keep) != 0 {
		c.Fail("FromByteArray(%x): the result shares memory with the argument", b)
	}
	c.Eval("from", b[0], min(len(b), 40))
	c.Count("byte strings decoded")
}

func checkFlip(c *C, b []byte) {
	in := append([]byte(nil), b...)
	var got []byte
	if p := Call(func() { got = bc.FlipBytes(in) }); p != nil {
		c.Fail("FlipBytes(%x): %v", b, p)
		return
	}
	ok := len(got) == len(b)
	for i := 0; ok && i < len(b); i++ {
		ok = got[i] == ^b[i]
	}
	if !ok {
		c.Fail("FlipBytes(%x) = %x", b, got)
	}
	if !bytes.Equal(in, b) {
		c.Fail("FlipBytes(%x) changed its argument to %x", b, in)
	}
	for i := range in {
		in[i] ^= 0x5a
		if ok && got[i] != ^b[i] {
			c.Fail("FlipBytes(%x): the result shares memory with the argument", b)
		}
	}
	c.Count("byte strings complemented")
}

var p28 = Prop{
	ID:   "P28",
	Rule: "integers around byte and sign boundaries, random lengths up to 4096 bits, all 16-bit values; byte strings with every leading byte, sign extensions and 00/ff runs; compared with a two's-complement model. Distinct: sign, length class, position of the top bit, leading byte.",
	Min:  300,
	Suites: []Suite{
		{"integers", 400, 8000, func(c *C) {
			for i := 0; i < 2000; i++ {
				checkTo(c, hostileInt(c.R))
			}
		}},
		{"small", 16, 16, func(c *C) {
			for i := c.Idx; i < 1<<17+600; i += 16 {
				checkTo(c, I(int64(i-1<<16-300)))
			}
		}},
		{"powers", 16, 16, func(c *C) {
			for k := c.Idx; k < 1100; k += 16 {
				for d := int64(-2); d <= 2; d++ {
					x := new(big.Int).Add(Pow2(k), I(d))
					checkTo(c, x)
					checkTo(c, new(big.Int).Neg(x))
				}
			}
		}},
		{"byte strings", 200, 4000, func(c *C) {
			for i := 0; i < 2000; i++ {
				var b []byte
				switch c.R.Intn(5) {
				case 0:
					b = c.R.Bytes(c.R.Intn(70))
				case 1: // sign extension
					b = ref.TwosComplement(hostileInt(c.R))
					s := byte(0)
					if b[0] >= 128 {
						s = 255
					}
					b = append(bytes.Repeat([]byte{s}, c.R.Intn(9)), b...)
				case 2:
					b = make([]byte, c.R.Intn(12))
					for k := range b {
						b[k] = []byte{0, 0xff, 0x80, 0x7f, 1, 0xfe}[c.R.Intn(6)]
					}
				case 3:
					b = bytes.Repeat([]byte{byte(c.R.Intn(256))}, c.R.Intn(40))
				default:
					b = append([]byte{byte(i)}, c.R.Bytes(c.R.Intn(40))...)
				}
				checkFrom(c, b)
			}
		}},
		{"short strings", 16, 16, func(c *C) {
			for i := c.Idx; i < 1<<16; i += 16 {
				checkFrom(c, []byte{byte(i >> 8), byte(i)})
				if i < 256 {
					checkFrom(c, []byte{byte(i)})
				}
			}
			checkFrom(c, nil)
			checkFrom(c, []byte{})
			for k := 1; k < 30; k++ {
				checkFrom(c, bytes.Repeat([]byte{0xff}, k))
				checkFrom(c, bytes.Repeat([]byte{0}, k))
				checkFrom(c, append([]byte{0x80}, make([]byte, k)...))
				checkFrom(c, append([]byte{0xff}, make([]byte, k)...))
				checkFrom(c, append([]byte{0xff, 0x80}, make([]byte, k)...))
			}
		}},
	},
}

func checkParse(c *C, s []byte) {
	in := append([]byte(nil), s...)
	var got *big.Int
	var err error
	if p := Call(func() { got, err = bc.ConvertToBigInt(in) }); p != nil {
		c.Fail("ConvertToBigInt(%q): %v", s, p)
		return
	}
	if !bytes.Equal(in, s) {
		c.Fail("ConvertToBigInt(%q) changed its argument", s)
	}
	want, werr := ref.ParseInt(s)
	if (err != nil) != (werr != nil) {
		c.Fail("ConvertToBigInt(%.80q) = %v, error %v; want error: %v", s, got, err, werr != nil)
		return
	}
	if err == nil && (got == nil || got.Cmp(want) != 0) {
		c.Fail("ConvertToBigInt(%.80q) = %v, want %s", s, got, want)
	}
	c.Eval("field", werr != nil, min(len(s), 60), len(s) > 0 && s[0] == '-', len(s) > 1 && s[1] == '0')
	c.Count(map[bool]string{true: "malformed fields", false: "well-formed fields"}[werr != nil])
}

func checkList(c *C, s []byte) {
	in := append([]byte(nil), s...)
	var got []*big.Int
	var err error
	if p := Call(func() { got, err = bc.ParseInput(in) }); p != nil {
		c.Fail("ParseInput(%.80q): %v", s, p)
		return
	}
	if !bytes.Equal(in, s) {
		c.Fail("ParseInput(%q) changed its argument", s)
	}
	var want []*big.Int
	bad := false
	for _, f := range strings.Split(string(s), ",") {
		v, e := ref.ParseInt([]byte(f))
		bad = bad || e != nil
		want = append(want, v)
	}
	if (err != nil) != bad {
		c.Fail("ParseInput(%.80q): error %v, want error: %v", s, err, bad)
		return
	}
	if !bad {
		ok := len(got) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = got[i] != nil && got[i].Cmp(want[i]) == 0
		}
		if !ok {
			c.Fail("ParseInput(%.80q) = %v, want %v", s, got, want)
		}
	}
	c.Eval("list", bad, min(len(want), 20))
	c.Count(map[bool]string{true: "malformed lists", false: "well-formed lists"}[bad])
}

func field(r *Rng) []byte {
	switch r.Intn(14) {
	case 0:
		return nil
	case 1:
		return []byte("-")
	case 2:
		return []byte([]string{"+5", " 5", "5 ", "0x10", "1_000", "--5", "5-", "1e3", "1.0", "\x00", "5\x00", "٣", "0b1", "0o7", "-+1", "- 1", "５", "\n1", "1\n", "1\r", "/", ":", "5:", "-/", "infinity", "nil", "A", "_1", "1_"}[r.Intn(29)])
	case 3: // leading zeros
		return append([]byte("-000000000000")[r.Intn(2):2+r.Intn(10)], []byte(hostileInt(r).Text(10))[1:]...)
	case 4:
		b := []byte(hostileInt(r).Text(10))
		b[r.Intn(len(b))] = byte(r.Intn(256))
		return b
	case 5:
		return []byte(r.Bits(4000 + r.Intn(9000)).Text(10))
	case 6:
		return []byte("-0")
	case 7:
		return []byte(fmt.Sprint(r.Int64()))
	case 8:
		b := make([]byte, r.Intn(6))
		for i := range b {
			b[i] = "0123456789-+"[r.Intn(12)]
		}
		return b
	}
	return []byte(hostileInt(r).Text(10))
}

var p29 = Prop{
	ID:   "P29",
	Rule: "decimal fields of all lengths, signs and leading zeros, malformed fields (foreign characters, misplaced signs, other number formats, every single byte), lists with empty, trailing and malformed fields; compared with a digit-by-digit model. Distinct: verdict, length, sign.",
	Min:  100,
	Suites: []Suite{
		{"fields", 200, 4000, func(c *C) {
			for i := 0; i < 1500; i++ {
				checkParse(c, field(c.R))
			}
		}},
		{"short", 8, 8, func(c *C) {
			for i := c.Idx; i < 1<<16; i += 8 {
				checkParse(c, []byte{byte(i >> 8), byte(i)})
				if i < 256 {
					checkParse(c, []byte{byte(i)})
					checkParse(c, []byte{'-', '1', byte(i)})
					checkParse(c, []byte{'1', byte(i), '2'})
				}
			}
		}},
		{"lists", 200, 4000, func(c *C) {
			for i := 0; i < 400; i++ {
				n := c.R.Intn(8)
				if c.R.Intn(20) == 0 {
					n = 200
				}
				var fs [][]byte
				for k := 0; k < n; k++ {
					f := field(c.R)
					if c.R.Intn(6) > 0 {
						f = []byte(hostileInt(c.R).Text(10))
					}
					fs = append(fs, f)
				}
				checkList(c, bytes.Join(fs, []byte(",")))
			}
			for _, s := range []string{"", ",", ",,", "1,", ",1", "1,,2", "-,1", "1,-", "1, 2", "1;2", "1,2,3", "-1,-2", "1,2,x"} {
				checkList(c, []byte(s))
			}
		}},
	},
}
