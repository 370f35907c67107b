// Package gen holds the generators shared by the checks: file contents built
// from segments, block sizes, and readers with awkward chunking.
package gen

import (
	"errors"
	"fmt"
	"io"

	"pgregory.net/rapid"
)

// Seg is one piece of generated file content.
type Seg struct {
	K    string `json:"k"`              // run, rnd, per, lit, ref
	N    int    `json:"n,omitempty"`    // length (run, rnd, per, ref)
	V    uint64 `json:"v,omitempty"`    // byte value (run), seed (rnd), offset (ref)
	Data []byte `json:"data,omitempty"` // literal (lit) or period (per)
}

// Expand fills n pseudo-random bytes from a seed: the seed is the generated
// value, the bytes are a pure function of it.
func Expand(seed uint64, n int) []byte {
	out := make([]byte, n)
	s := seed*0x9e3779b97f4a7c15 + 0x1234567
	for i := range out {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		out[i] = byte((s * 0x2545f4914f6cdd1d) >> 56)
		if s == 0 {
			s = 88172645463325252
		}
	}
	return out
}

// Build expands segments; ref is what "ref" segments copy from.
func Build(segs []Seg, ref []byte) []byte {
	out := []byte{}
	for _, s := range segs {
		switch s.K {
		case "run":
			for i := 0; i < s.N; i++ {
				out = append(out, byte(s.V))
			}
		case "rnd":
			out = append(out, Expand(s.V, s.N)...)
		case "per":
			for i := 0; i < s.N && len(s.Data) > 0; i++ {
				out = append(out, s.Data[i%len(s.Data)])
			}
		case "lit":
			out = append(out, s.Data...)
		case "ref":
			a := min(int(s.V), len(ref))
			b := min(a+s.N, len(ref))
			out = append(out, ref[a:b]...)
		default:
			panic(fmt.Sprintf("segment kind %q", s.K))
		}
	}
	return out
}

// Len draws a length in [0,maxLen], biased to multiples of the block size and
// their neighbours.
func Len(t *rapid.T, bs, maxLen int, label string) int {
	if bs > 0 && rapid.IntRange(0, 2).Draw(t, label+"Mode") > 0 {
		m := Pos(t, maxLen/bs, label+"Blocks")
		d := rapid.SampledFrom([]int{0, 1, -1, bs / 2}).Draw(t, label+"Delta")
		return max(0, min(maxLen, m*bs+d))
	}
	return Pos(t, maxLen, label)
}

// Pos draws a number in [0,hi], spread evenly at the large scale (rapid's own
// ranges are strongly biased to small numbers).
func Pos(t *rapid.T, hi int, label string) int {
	if hi < 8 {
		return rapid.IntRange(0, max(0, hi)).Draw(t, label)
	}
	k := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, label+"Eighth")
	return min(hi, k*hi/8+rapid.IntRange(0, hi/8+1).Draw(t, label))
}

// Small draws bytes over a tiny alphabet, so that equal blocks and weak
// checksum collisions (such as 1001 and 0110) are common.
func Small(t *rapid.T, maxLen int, label string) []byte {
	a := rapid.IntRange(0, 2).Draw(t, label+"Base")
	k := rapid.IntRange(0, 3).Draw(t, label+"Alpha")
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) byte {
		return byte(a + rapid.IntRange(0, k).Draw(t, "b"))
	}), 0, maxLen).Draw(t, label)
}

// Fresh draws content without copies of anything.
func Fresh(t *rapid.T, bs, maxLen int) Seg {
	switch rapid.IntRange(0, 4).Draw(t, "seg") {
	case 0, 1:
		return Seg{K: "lit", Data: Small(t, min(maxLen, 24), "lit")}
	case 2:
		return Seg{K: "run", N: Len(t, bs, maxLen, "n"), V: uint64(rapid.SampledFrom([]int{0, 1, 255, 65}).Draw(t, "v"))}
	case 3:
		return Seg{K: "rnd", N: Len(t, bs, maxLen, "n"), V: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	default:
		p := Small(t, 5, "period")
		return Seg{K: "per", N: Len(t, bs, maxLen, "n"), Data: p}
	}
}

// Content draws reference content: a few segments, which may repeat earlier
// parts of the same content ("ref" segments are resolved against base).
func Content(t *rapid.T, bs, maxLen int) []Seg {
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 4, 3, 2, 1, 2, 3, 0}).Draw(t, "refSegs")
	out := make([]Seg, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, Fresh(t, bs, maxLen/max(1, n)))
	}
	return out
}

// Edited draws a local version of ref: copies of parts of it, at aligned or
// arbitrary positions, mixed with fresh content.
func Edited(t *rapid.T, bs, refLen, maxLen int) []Seg {
	switch rapid.IntRange(0, 9).Draw(t, "editMode") {
	case 0:
		return []Seg{{K: "ref", V: 0, N: refLen}} // identical
	case 1:
		return Content(t, bs, maxLen) // unrelated
	}
	n := rapid.IntRange(1, 6).Draw(t, "edits")
	out := make([]Seg, 0, n)
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 2).Draw(t, "copy") > 0 && refLen > 0 {
			var off, ln int
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0: // whole blocks
				b := (refLen + bs - 1) / bs
				s := Pos(t, b-1, "from")
				e := s + Pos(t, b-1-s, "count")
				off, ln = s*bs, (e-s+1)*bs
			case 1: // up to the end
				off = Pos(t, refLen-1, "from")
				ln = refLen - off
			case 2: // from the start
				off, ln = 0, Pos(t, refLen, "len")
			default:
				off = Pos(t, refLen-1, "from")
				ln = Pos(t, refLen-off, "len")
			}
			out = append(out, Seg{K: "ref", V: uint64(off), N: ln})
		} else {
			out = append(out, Fresh(t, bs, max(1, maxLen/8)))
		}
	}
	return out
}

// BlockSize draws a block size from minBS up, small ones and powers of two most
// often. Content far larger than the block size makes the number of matches of
// repeated blocks quadratic, so callers with large contents raise minBS.
func BlockSize(t *rapid.T, minBS, maxBS int) int {
	if minBS > 1 {
		return minBS + Pos(t, maxBS-minBS, "bs")
	}
	switch rapid.IntRange(0, 3).Draw(t, "bsMode") {
	case 0:
		return rapid.IntRange(1, min(3, maxBS)).Draw(t, "bs")
	case 1:
		return min(maxBS, rapid.SampledFrom([]int{2, 4, 8, 16, 32, 64}).Draw(t, "bs"))
	default:
		return 1 + Pos(t, maxBS-1, "bs")
	}
}

// ErrInjected is what the fault injectors return.
var ErrInjected = errors.New("injected failure")

// Err is the error of a kind drawn by ErrKind: a failure may look like the ones
// that the standard library uses for data that was cut short.
func Err(kind int) error {
	switch kind {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrShortWrite
	}
	return ErrInjected
}

// ErrKind draws a kind of error.
func ErrKind(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "errKind")
}

// ChunkReader delivers data in pieces of the given sizes (cycled; a 0 is a read
// that returns no data and no error), optionally together with io.EOF on the
// last piece, optionally failing at an offset.
type ChunkReader struct {
	Data    []byte
	Sizes   []int
	WithEOF bool // last data is returned together with io.EOF
	FailAt  int  // offset at which the read fails; <0 never
	WithErr bool // the failure is returned together with the data before it
	Err     error
	Once    bool // the failure is reported once, then io.EOF follows
	pos, k  int
	Fails   int // how often the failure was returned
	OnFail  func(times int)
}

func (c *ChunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(c.Data)
	fail := c.FailAt >= 0 && c.FailAt <= end
	if fail {
		end = c.FailAt
	}
	final := func() error {
		if fail && !(c.Once && !c.WithErr && c.Fails > 0) {
			c.Fails++
			if c.OnFail != nil {
				c.OnFail(c.Fails)
			}
			return c.Err
		}
		return io.EOF
	}
	if c.pos >= end {
		return 0, final()
	}
	n := len(p)
	if len(c.Sizes) > 0 {
		s := c.Sizes[c.k%len(c.Sizes)]
		c.k++
		n = min(n, s)
	}
	n = min(n, end-c.pos)
	copy(p, c.Data[c.pos:c.pos+n])
	c.pos += n
	if n > 0 && c.pos == end && ((!fail && c.WithEOF) || (fail && c.WithErr)) {
		return n, final()
	}
	return n, nil
}

// Sizes draws a chunking pattern with at least one non-zero size.
func Sizes(t *rapid.T, maxChunk int) []int {
	if rapid.Bool().Draw(t, "whole") {
		return nil
	}
	s := rapid.SliceOfN(rapid.IntRange(0, max(1, maxChunk)), 1, 6).Draw(t, "chunks")
	ok := false
	for _, v := range s {
		ok = ok || v > 0
	}
	if !ok {
		s[0] = 1
	}
	return s
}
