package core

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"sync"
)

// Recorder replaces crypto/rand.Reader during a case: it is deterministic, remembers every
// read, can bias the values towards extremes, and can fail at a chosen read.
type Recorder struct {
	mu     sync.Mutex // operations may draw from several goroutines
	rng    *Rng
	Mode   int      // 0 uniform, 1 hostile values
	Max    *big.Int // order that hostile values aim at
	Draws  [][]byte
	Total  int
	FailAt int // fail at this read (0-based); -1: never
	Short  bool
	Failed bool
	Reads  int
	FlipAt int  // flip one bit of this read; -1: never
	FlipHi bool // of its second byte instead of its last one
	Chunk  int  // >0: return at most this many bytes per call, without an error
	Sticky bool
	Const  *big.Int // mode 2: the value of every full-size read
}

var ErrInjected = errors.New("injected failure of the random source")

func (r *Recorder) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Chunk > 0 && len(p) > r.Chunk {
		p = p[:r.Chunk]
	}
	i := r.Reads
	r.Reads++
	if r.FailAt >= 0 && (i == r.FailAt || (r.Sticky && i > r.FailAt)) {
		r.Failed = true
		if r.Short && len(p) > 1 {
			n := len(p) / 2
			r.rng.Read(p[:n])
			return n, io.ErrUnexpectedEOF
		}
		return 0, ErrInjected
	}
	r.rng.Read(p)
	if r.Mode == 1 && r.Max != nil && len(p) == (r.Max.BitLen()+7)/8 {
		v := new(big.Int)
		switch r.rng.Intn(8) {
		case 0:
		case 1:
			v.SetInt64(int64(1 + r.rng.Intn(3)))
		case 2:
			v.Sub(r.Max, big.NewInt(int64(1+r.rng.Intn(3))))
		case 3:
			v = r.rng.Bits(8 * (1 + r.rng.Intn(31)))
		case 4:
			v.Lsh(big.NewInt(1), uint(r.rng.Intn(r.Max.BitLen()-1)))
		default:
			v = r.rng.Below(r.Max)
		}
		v.FillBytes(p)
	}
	// a constant source ends at some time, for an operation that draws again until it likes
	// what it gets
	if r.Mode == 2 && i < 1000 && len(p) == (r.Const.BitLen()+7)/8 || r.Mode == 2 && i < 1000 && len(p) == 32 {
		r.Const.FillBytes(p)
	}
	if i == r.FlipAt && len(p) > 0 {
		if r.FlipHi && len(p) > 1 {
			p[1] ^= 0x10
		} else if len(p) > 32 {
			p[len(p)-2] ^= 1 // the draw may be masked, in either byte order
		} else {
			p[len(p)-1] ^= 1
		}
	}
	r.Draws = append(r.Draws, append([]byte(nil), p...))
	r.Total += len(p)
	return len(p), nil
}

// Scalars returns the values of the full-size reads that rand.Int would have accepted for
// the given order.
func (r *Recorder) Scalars(order *big.Int) []*big.Int {
	var out []*big.Int
	for _, d := range r.Draws {
		if v, ok := accepted(d, order); ok {
			out = append(out, v)
		}
	}
	return out
}

// FullReads lists the reads whose value rand.Int would have accepted for the given order.
func (r *Recorder) FullReads(order *big.Int) []int {
	var out []int
	for i, d := range r.Draws {
		if _, ok := accepted(d, order); ok {
			out = append(out, i)
		}
	}
	return out
}

func accepted(d []byte, order *big.Int) (*big.Int, bool) {
	size := (order.BitLen() + 7) / 8
	if len(d) > size && len(d) <= 2*size {
		// a draw that is wider than the order, to be reduced
		return new(big.Int).Mod(new(big.Int).SetBytes(d), order), true
	}
	if len(d) != size {
		return nil, false
	}
	v := new(big.Int).SetBytes(d)
	mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(order.BitLen())), big.NewInt(1))
	v.And(v, mask)
	return v, v.Cmp(order) < 0
}

// InBlocks returns the number of scalars that the reads of more than two scalars at once
// have room for.
func (r *Recorder) InBlocks(order *big.Int) int {
	size, n := (order.BitLen()+7)/8, 0
	for _, d := range r.Draws {
		if len(d) > 2*size {
			n += len(d) / size
		}
	}
	return n
}

// Install makes a recorder the system's random source until the end of the case.
func (c *C) Install(mode int, max *big.Int) *Recorder {
	r := &Recorder{rng: c.R.Fork("rand"), Mode: mode, Max: max, FailAt: -1, FlipAt: -1}
	rand.Reader = r
	return r
}

// InstallSeeded is Install with a stream that depends on the given label only.
func (c *C) InstallSeeded(label string) *Recorder {
	r := &Recorder{rng: NewRng(c.Seed + "/" + label), FailAt: -1, FlipAt: -1}
	rand.Reader = r
	return r
}
