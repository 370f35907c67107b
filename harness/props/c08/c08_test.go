package c08

import (
	"bytes"
	"testing"

	"github.com/Redundancy/go-sync/chunks"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/vh"
)

type tc struct {
	Weak    int    `json:"weak"`
	Strong  int    `json:"strong"`
	N       int    `json:"n"`
	Seed    uint64 `json:"seed"`
	Chunks  []int  `json:"chunks,omitempty"`
	WithEOF bool   `json:"withEOF,omitempty"`
	Cut     int    `json:"cut"`    // bytes missing at the end
	FailAt  int    `json:"failAt"` // -1: never
	WithErr bool   `json:"withErr,omitempty"`
}

func genCase(maxN int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{FailAt: -1}
		if rapid.Bool().Draw(t, "usual") {
			c.Weak, c.Strong = 4, 16
		} else {
			c.Weak, c.Strong = rapid.IntRange(1, 9).Draw(t, "weak"), rapid.IntRange(1, 40).Draw(t, "strong")
		}
		c.N = rapid.IntRange(0, maxN).Draw(t, "n")
		c.Seed = rapid.Uint64Range(0, 1<<16).Draw(t, "seed")
		c.Chunks = gen.Sizes(t, c.Weak+c.Strong+2)
		c.WithEOF = rapid.Bool().Draw(t, "withEOF")
		total := c.N * (c.Weak + c.Strong)
		switch rapid.IntRange(0, 3).Draw(t, "mode") {
		case 0:
			c.Cut = rapid.IntRange(0, total).Draw(t, "cut")
		case 1:
			k := rapid.IntRange(0, c.N).Draw(t, "entry")
			at := k*(c.Weak+c.Strong) + rapid.SampledFrom([]int{0, 1, c.Weak - 1, c.Weak, c.Weak + 1, c.Weak + c.Strong - 1}).Draw(t, "in")
			if rapid.Bool().Draw(t, "fail") {
				c.FailAt, c.WithErr = min(at, total), rapid.Bool().Draw(t, "withErr")
			} else {
				c.Cut = total - min(at, total)
			}
		}
		return c
	}
}

// genHuge makes lists that are longer than any plausible internal buffer or
// 16 bit counter.
func genHuge(t *rapid.T) tc {
	c := genCase(0)(t)
	c.FailAt, c.Cut = -1, 0
	c.Chunks = rapid.SampledFrom([][]int{nil, {4096}, {1000, 7}, {1, 5000}}).Draw(t, "chunking")
	if rapid.Bool().Draw(t, "beyond 16 bits") {
		c.N = 65530 + rapid.IntRange(0, 12).Draw(t, "n") + rapid.SampledFrom([]int{0, 65536}).Draw(t, "more")
		c.Weak, c.Strong = rapid.IntRange(1, 4).Draw(t, "weak"), rapid.IntRange(1, 8).Draw(t, "strong")
	} else {
		c.N = rapid.IntRange(1000, 9000).Draw(t, "n")
	}
	entry := c.Weak + c.Strong
	switch rapid.IntRange(0, 5).Draw(t, "mode") {
	case 0:
		c.Cut = rapid.IntRange(0, entry).Draw(t, "cut")
	case 1:
		c.FailAt = c.N*entry - rapid.IntRange(0, entry).Draw(t, "before the end")
	}
	return c
}

func run(c tc, r *vh.Rec) error {
	entry := c.Weak + c.Strong
	all := gen.Expand(c.Seed, c.N*entry)
	data := append([]byte{}, all[:len(all)-c.Cut]...)
	rd := &gen.ChunkReader{Data: data, Sizes: c.Chunks, WithEOF: c.WithEOF, FailAt: c.FailAt, WithErr: c.WithErr, Err: gen.ErrInjected}
	rd.OnFail = func(n int) {
		if n > 10000 {
			select {}
		}
	}
	list, err := chunks.LoadChecksumsFromReader(rd, c.Weak, c.Strong)
	partial := len(data)%entry != 0
	if c.FailAt >= 0 || partial {
		if err == nil || list != nil {
			return vh.Failf("%d bytes of %d byte entries (%d+%d), read failure at %d: got %d entries and error %v; expected an error and no list", len(data), entry, c.Weak, c.Strong, c.FailAt, len(list), err)
		}
		r.ClassIf(c.FailAt >= 0, "reader failure")
		r.ClassIf(c.FailAt >= 0 && c.FailAt%entry == 0, "reader failure between entries")
		r.ClassIf(partial && len(data)%entry < c.Weak, "cut in a weak checksum")
		r.ClassIf(partial && len(data)%entry >= c.Weak, "cut in or before a strong checksum")
		if len(data) > entry {
			r.NonTrivial()
		}
		return nil
	}
	if err != nil {
		return vh.Failf("loading %d whole entries failed: %v", len(data)/entry, err)
	}
	n := len(data) / entry
	if len(list) != n {
		return vh.Failf("loaded %d entries, expected %d", len(list), n)
	}
	same := func(i int) bool {
		w := all[i*entry : i*entry+c.Weak]
		s := all[i*entry+c.Weak : (i+1)*entry]
		return list[i].ChunkOffset == uint(i) && bytes.Equal(list[i].WeakChecksum, w) && bytes.Equal(list[i].StrongChecksum, s)
	}
	getter := chunks.StrongChecksumGetter(list)
	for i := range list {
		if !same(i) {
			return vh.Failf("entry %d of %d is %+v, expected %d %s", i, n, list[i], i, e2e.Show(all[i*entry:(i+1)*entry]))
		}
		if !bytes.Equal(getter.GetStrongChecksumForBlock(i), list[i].StrongChecksum) {
			return vh.Failf("getter for block %d disagrees with the list", i)
		}
	}
	for _, i := range []int{-1, n, n + 1, 1 << 40, -1 << 40} {
		if s := getter.GetStrongChecksumForBlock(i); s != nil {
			return vh.Failf("the getter has the checksum %x for block %d of %d", s, i, n)
		}
	}
	// no shared storage: overwrite one checksum after the other
	for i := range list {
		for j := range list[i].WeakChecksum {
			list[i].WeakChecksum[j] ^= 0xFF
		}
		if !bytes.Equal(list[i].StrongChecksum, all[i*entry+c.Weak:(i+1)*entry]) {
			return vh.Failf("the checksums of entry %d share storage", i)
		}
		for j := range list[i].StrongChecksum {
			list[i].StrongChecksum[j] ^= 0xFF
		}
		if i+1 < n && !same(i+1) {
			return vh.Failf("entries %d and %d share storage", i, i+1)
		}
	}
	for i := range list {
		for j := range list[i].WeakChecksum {
			list[i].WeakChecksum[j] ^= 0xFF
		}
		for j := range list[i].StrongChecksum {
			list[i].StrongChecksum[j] ^= 0xFF
		}
		if !same(i) {
			return vh.Failf("entry %d shares storage with another one", i)
		}
	}
	r.ClassIf(n == 0, "no entries")
	r.ClassIf(n > 20, "more than 20 entries")
	if n > 1 {
		r.NonTrivial()
	}
	return nil
}

const rule = "random checksum sizes, entries and reader chunking; whole, cut at any byte (in particular around entry and weak/strong boundaries), or with a reader that fails there; non-trivial: more than one entry's worth of data"

var check = &vh.Check{
	ID: "C08",
	Parts: []*vh.Part{
		vh.NewPart("load", rule, 200000, 2400000, true, genCase(12), run),
		vh.NewPart("load-long", rule+"; up to 400 entries", 10000, 120000, true, genCase(400), run),
		vh.NewPart("load-huge", rule+"; 1000 to 140000 entries", 120, 1500, true, genHuge, run),
	},
	Assumptions: []string{"checksum sizes are at least one byte", "readers keep failing once they failed"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
