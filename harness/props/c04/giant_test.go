package c04

import (
	"bytes"
	"io"

	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

// giant is a stream of more than 2 or 4 GiB: the reference over and over, with
// a few bytes that are not in it here and there.
type giant struct {
	BS     int    `json:"bs"`
	Blocks int    `json:"blocks"` // of the reference, all different
	Tail   int    `json:"tail,omitempty"`
	N      int64  `json:"n"`     // blocks in the stream
	Every  int    `json:"every"` // blocks without anything between them
	Extra  int    `json:"extra"` // bytes between
	Seed   uint64 `json:"seed"`
	Base   int64  `json:"base,omitempty"`
}

func genGiant(t *rapid.T) giant {
	c := giant{BS: 1<<19 + gen.Pos(t, 1<<20, "bs"), Blocks: rapid.IntRange(1, 6).Draw(t, "blocks"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	size := rapid.SampledFrom([]int64{1<<31 + 1<<26, 1<<31 + 1<<27, 1<<32 + 1<<26}).Draw(t, "size")
	c.N = size/int64(c.BS) + int64(gen.Pos(t, 20, "more"))
	c.Every = rapid.IntRange(50, 1000).Draw(t, "every")
	c.Extra = gen.Pos(t, 2000, "extra")
	if rapid.Bool().Draw(t, "tail?") {
		c.Tail = 1 + gen.Pos(t, c.BS/4, "tail")
	}
	c.Base = rapid.SampledFrom([]int64{0, 1, 1 << 33}).Draw(t, "base")
	return c
}

// parts is a reader of many slices.
type parts struct {
	next func() []byte
	cur  []byte
	end  bool
}

func (p *parts) Read(b []byte) (int, error) {
	for len(p.cur) == 0 && !p.end {
		p.cur = p.next()
		p.end = p.cur == nil
	}
	if len(p.cur) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.cur)
	p.cur = p.cur[n:]
	return n, nil
}

func runGiant(c giant, r *vh.Rec) error {
	ref := gen.Expand(c.Seed+1, c.Blocks*c.BS+c.Tail)
	extra := gen.Expand(c.Seed+1<<30, c.Extra)
	_, ix, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(c.BS)), bytes.NewReader(ref))
	if err != nil {
		return vh.Failf("building the index: %v", err)
	}
	k, gap := int64(-1), true
	rd := &parts{next: func() []byte {
		if k++; k == c.N {
			if c.Tail == 0 {
				return nil
			}
			return ref[c.Blocks*c.BS:]
		} else if k > c.N {
			return nil
		}
		if gap = !gap; !gap && k > 0 && k%int64(c.Every) == 0 && c.Extra > 0 {
			k--
			return extra
		}
		gap = true
		b := int(k % int64(c.Blocks))
		return ref[b*c.BS : (b+1)*c.BS]
	}}
	want := int64(0) // the next match
	off := c.Base
	for m := range (&comparer.Comparer{}).StartFindMatchingBlocks(rd, c.Base, filechecksum.NewFileChecksumGenerator(uint(c.BS)), ix) {
		if m.Err != nil {
			return vh.Failf("error %v after %d matches", m.Err, want)
		}
		id := uint(want % int64(c.Blocks))
		if want == c.N {
			id = uint(c.Blocks)
		} else if want > 0 && want%int64(c.Every) == 0 {
			off += int64(c.Extra)
		}
		if m.BlockIdx != id || m.ComparisonOffset != off {
			return vh.Failf("match %d is of block %d at %d, it should be of block %d at %d (block size %d)", want, m.BlockIdx, m.ComparisonOffset, id, off, c.BS)
		}
		off += int64(c.BS)
		want++
	}
	n := c.N
	if c.Tail > 0 {
		n++
	}
	if want != n {
		return vh.Failf("%d matches are reported in a stream that consists of %d blocks of the reference (block size %d)", want, n, c.BS)
	}
	r.ClassIf(off > 1<<32, "matches beyond 4 GiB")
	if off-c.Base > 1<<31 {
		r.NonTrivial()
	}
	return nil
}
