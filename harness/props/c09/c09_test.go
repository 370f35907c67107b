package c09

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"pgregory.net/rapid"
	"verif/vh"
)

type entry struct {
	W uint32 `json:"w"`
	S int    `json:"s"` // which strong checksum
}

type tc struct {
	Pool    [][]byte `json:"pool"` // strong checksums
	Entries []entry  `json:"entries"`
	Queries []entry  `json:"queries"`
	Shuffle int      `json:"shuffle,omitempty"` // block numbers are (i*Shuffle+Shift) mod the prime 100003
}

func genCase(maxN int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{}
		size := rapid.SampledFrom([]int{16, 16, 1, 3}).Draw(t, "size")
		np := rapid.IntRange(1, 6).Draw(t, "pool")
		for i := 0; i < np; i++ {
			// few distinct bytes, so that checksums share prefixes
			c.Pool = append(c.Pool, rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 127, 128, 255}), size, size).Draw(t, "strong"))
		}
		weak := rapid.Custom(func(t *rapid.T) uint32 {
			lo := rapid.SampledFrom([]uint32{0, 1, 255}).Draw(t, "lo")
			hi := rapid.SampledFrom([]uint32{0, 1 << 8, 1 << 16, 1 << 31, 0xffffff00}).Draw(t, "hi")
			return lo | hi
		})
		weaks := rapid.SliceOfN(weak, 1, 4).Draw(t, "weaks")
		e := rapid.Custom(func(t *rapid.T) entry {
			return entry{rapid.SampledFrom(weaks).Draw(t, "w"), rapid.IntRange(0, np-1).Draw(t, "s")}
		})
		c.Entries = rapid.SliceOfN(e, 0, min(maxN, 300)).Draw(t, "entries")
		q := rapid.Custom(func(t *rapid.T) entry {
			if rapid.IntRange(0, 4).Draw(t, "other") == 0 {
				return entry{weak.Draw(t, "w"), rapid.IntRange(-1, np-1).Draw(t, "s")}
			}
			return entry{rapid.SampledFrom(weaks).Draw(t, "w"), rapid.IntRange(-2, np-1).Draw(t, "s")}
		})
		c.Queries = rapid.SliceOfN(q, 1, 20).Draw(t, "queries")
		if maxN > 1000 { // runs of the same entry, which stay small when shrunk
			n := rapid.IntRange(0, 6).Draw(t, "runs")
			for i := 0; i < n; i++ {
				x := e.Draw(t, "run")
				for k := rapid.IntRange(1, maxN/4).Draw(t, "length"); k > 0; k-- {
					c.Entries = append(c.Entries, x)
				}
			}
		}
		c.Shuffle = rapid.SampledFrom([]int{0, 7, 501}).Draw(t, "numbering")
		return c
	}
}

func run(c tc, r *vh.Rec) error {
	var list []chunks.ChunkChecksum
	number := func(i int) uint {
		if c.Shuffle == 0 {
			return uint(i)
		}
		return uint((i * c.Shuffle) % 100003)
	}
	for i, e := range c.Entries {
		list = append(list, chunks.ChunkChecksum{
			ChunkOffset:    number(i),
			WeakChecksum:   binary.LittleEndian.AppendUint32(nil, e.W),
			StrongChecksum: append([]byte{}, c.Pool[e.S]...),
		})
	}
	idx := index.MakeChecksumIndex(list)
	for i, e := range c.Entries {
		if list[i].ChunkOffset != number(i) || binary.LittleEndian.Uint32(list[i].WeakChecksum) != e.W || !bytes.Equal(list[i].StrongChecksum, c.Pool[e.S]) {
			return vh.Failf("building the index changed entry %d of the list it was given (which also answers strong checksum lookups)", i)
		}
	}
	if idx.BlockCount != len(list) || idx.Count != len(list) || idx.WeakCount() != len(list) {
		return vh.Failf("%d blocks indexed, but BlockCount %d, Count %d, WeakCount %d", len(list), idx.BlockCount, idx.Count, idx.WeakCount())
	}
	chain, longest := map[uint32]int{}, 0
	for i, e := range c.Entries {
		chain[e.W]++
		longest = max(longest, chain[e.W])
		for j, f := range c.Entries {
			if j > i+20 || i > 300 {
				break
			}
			if want := e.W == f.W && bytes.Equal(c.Pool[e.S], c.Pool[f.S]); list[i].Match(list[j]) != want || list[j].Match(list[i]) != want {
				return vh.Failf("entries %+v and %+v: Match returned %v", list[i], list[j], !want)
			}
		}
	}
	// checksums of other lengths
	for i := range min(len(list), 3) {
		k := list[i]
		for _, o := range []chunks.ChunkChecksum{
			{WeakChecksum: k.WeakChecksum, StrongChecksum: k.StrongChecksum[:len(k.StrongChecksum)-1]},
			{WeakChecksum: k.WeakChecksum, StrongChecksum: append(append([]byte{}, k.StrongChecksum...), 0)},
			{WeakChecksum: k.WeakChecksum},
			{WeakChecksum: k.WeakChecksum[:2], StrongChecksum: k.StrongChecksum},
			{WeakChecksum: append(append([]byte{}, k.WeakChecksum...), 0), StrongChecksum: k.StrongChecksum},
			{StrongChecksum: k.StrongChecksum},
		} {
			if k.Match(o) || o.Match(k) {
				return vh.Failf("entries %+v and %+v match", k, o)
			}
		}
		if o := (chunks.ChunkChecksum{ChunkOffset: k.ChunkOffset + 1, Size: k.Size + 1, WeakChecksum: k.WeakChecksum, StrongChecksum: k.StrongChecksum}); !k.Match(o) {
			return vh.Failf("entries with the same checksums, %+v and %+v, do not match", k, o)
		}
	}
	if idx.MaxStrongLength != longest {
		return vh.Failf("up to %d blocks share a weak checksum, MaxStrongLength is %d", longest, idx.MaxStrongLength)
	}
	if want := float64(len(list)) / float64(len(chain)); len(list) > 0 && math.Abs(float64(idx.AverageStrongLength)-want) > want/1e4 {
		return vh.Failf("%d blocks with %d weak checksums, AverageStrongLength is %v", len(list), len(chain), idx.AverageStrongLength)
	}
	hits, misses, dups := 0, 0, 0
	for qi, q := range c.Queries {
		w := binary.LittleEndian.AppendUint32(nil, q.W)
		strong := []byte("a strong checksum that is not in the index")[:len(c.Pool[0])]
		if q.S >= 0 {
			strong = c.Pool[q.S]
		} else if q.S == -2 { // only the beginning of one
			strong = c.Pool[0][:len(c.Pool[0])-1]
		}
		var want []uint
		weakCount := 0
		for i, e := range c.Entries {
			if e.W != q.W {
				continue
			}
			weakCount++
			if bytes.Equal(c.Pool[e.S], strong) {
				want = append(want, number(i))
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		l := idx.FindWeakChecksumInIndex(w)
		if len(l) != weakCount {
			return vh.Failf("query %d: weak checksum %08x is in %d entries, the index returned %d", qi, q.W, weakCount, len(l))
		}
		handle := idx.FindWeakChecksum2(w)
		if (handle == nil) != (weakCount == 0) {
			return vh.Failf("query %d: weak checksum %08x is in %d entries, FindWeakChecksum2 returned %v", qi, q.W, weakCount, handle)
		}
		found := idx.FindStrongChecksum2(strong, handle)
		var got []uint
		for _, f := range found {
			if binary.LittleEndian.Uint32(f.WeakChecksum) != q.W || !bytes.Equal(f.StrongChecksum, strong) {
				return vh.Failf("query %d: entry %+v does not have the checksums asked for", qi, f)
			}
			got = append(got, f.ChunkOffset)
		}
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return vh.Failf("query %d: blocks with weak %08x and strong %x are %v, the index returned %v", qi, q.W, strong, want, got)
		}
		if len(want) > 0 {
			hits++
		} else if weakCount > 0 {
			misses++
		}
		if len(want) > 1 && len(want) < weakCount {
			dups++
		}
	}
	r.ClassIf(hits > 0, "found")
	r.ClassIf(misses > 0, "weak collision, strong not found")
	r.ClassIf(dups > 0, "several among weak collisions")
	r.ClassIf(len(list) == 0, "empty index")
	r.ClassIf(longest > 1000, "more than 1000 blocks share a weak checksum")
	if len(list) > 1 && hits > 0 {
		r.NonTrivial()
	}
	return nil
}

const rule = "entries over a few weak checksums (sharing low bytes) and a few strong ones (sharing prefixes), sequential or scattered block numbers, and sequences of queries for present and absent pairs, answered by a linear scan; non-trivial: more than one entry and a query that finds something"

var check = &vh.Check{
	ID: "C09",
	Parts: []*vh.Part{
		vh.NewPart("small", rule, 120000, 1500000, false, genCase(12), run),
		vh.NewPart("large", rule+"; up to 300 entries", 12000, 150000, false, genCase(300), run),
		vh.NewPart("many", rule+"; up to 12000 entries, in runs of up to 2000 with the same checksums", 1200, 15000, false, genCase(8000), run),
	},
	Assumptions: []string{"weak checksums are four bytes, as the index requires"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
