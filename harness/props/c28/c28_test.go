package c28

import (
	"bytes"
	"sync"
	"testing"

	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type tc struct {
	BS      int         `json:"bs"`
	Ref     []gen.Seg   `json:"ref"`
	Streams [][]gen.Seg `json:"streams"`
	Chunks  []int       `json:"chunks,omitempty"`
	At      int64       `json:"at"`             // offset of the streams
	Fail    int         `json:"fail,omitempty"` // the last stream fails there (as one more)
	Kind    int         `json:"kind,omitempty"`
	Par     bool        `json:"par,omitempty"`
}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS)}
		c.Ref = gen.Content(t, c.BS, maxLen)
		n := len(gen.Build(c.Ref, nil))
		for i, k := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "streams"); i < k; i++ {
			c.Streams = append(c.Streams, gen.Edited(t, c.BS, n, maxLen))
		}
		c.Chunks = gen.Sizes(t, 2*c.BS)
		c.At = rapid.SampledFrom([]int64{0, 5, 1 << 33}).Draw(t, "offset")
		c.Par = rapid.Bool().Draw(t, "parallel")
		if rapid.IntRange(0, 5).Draw(t, "fails") == 0 {
			c.Fail = 1 + gen.Pos(t, maxLen, "fail")
			c.Kind = gen.ErrKind(t)
		}
		return c
	}
}

// genLong draws streams of more than 2^16 windows.
func genLong(t *rapid.T) tc {
	c := tc{BS: gen.BlockSize(t, 2, 12)}
	seed := func() uint64 { return rapid.Uint64Range(0, 1<<20).Draw(t, "seed") }
	n := 1 + gen.Pos(t, 100*c.BS, "n")
	c.Ref = []gen.Seg{{K: "rnd", N: n, V: seed()}}
	for i, k := 0, rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "streams"); i < k; i++ {
		var s []gen.Seg
		for j := 0; j < 3; j++ {
			s = append(s, gen.Seg{K: "rnd", N: gen.Pos(t, 250000, "rnd"), V: 1<<21 + seed()})
			if rapid.Bool().Draw(t, "run") {
				s = append(s, gen.Seg{K: "run", N: gen.Pos(t, 70000, "len"), V: rapid.Uint64Range(0, 255).Draw(t, "byte")})
			}
			p := gen.Pos(t, n, "from")
			s = append(s, gen.Seg{K: "ref", V: uint64(p), N: gen.Pos(t, n-p, "len")})
		}
		c.Streams = append(c.Streams, s)
	}
	c.At = rapid.SampledFrom([]int64{0, 5, 1 << 33}).Draw(t, "offset")
	c.Par = rapid.Bool().Draw(t, "parallel")
	return c
}

// counts is what a scan must at least and may at most count.
type counts struct{ windows, hits, moreWindows, moreHits, found int64 }

func run(c tc, r *vh.Rec) error {
	ref := gen.Build(c.Ref, nil)
	_, ix, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(c.BS)), bytes.NewReader(ref))
	if err != nil {
		return vh.Failf("building the index: %v", err)
	}
	weak := map[string]bool{}
	whole := map[string]bool{}
	for _, b := range oracle.Blocks(ref, c.BS) {
		weak[string(oracle.Weak(b))] = true
		if len(b) == c.BS {
			whole[string(b)] = true
		}
	}
	var mu sync.Mutex
	var want counts
	one := func(cmp *comparer.Comparer, i int) {
		stream := gen.Build(c.Streams[i], ref)
		rd := &gen.ChunkReader{Data: stream, Sizes: c.Chunks, FailAt: -1}
		failed := c.Fail > 0 && i == len(c.Streams)-1
		if failed {
			rd.FailAt, rd.Err = c.Fail-1, gen.Err(c.Kind)
			stream = stream[:min(len(stream), c.Fail-1)]
		}
		at := map[int64]bool{}
		for m := range cmp.StartFindMatchingBlocks(rd, c.At, filechecksum.NewFileChecksumGenerator(uint(c.BS)), ix) {
			if m.Err == nil {
				at[m.ComparisonOffset] = true
			}
		}
		n := counts{found: int64(len(at))}
		// whole windows, leaving out those that overlap a match
		p := 0
		for p+c.BS <= len(stream) {
			w := stream[p : p+c.BS]
			n.windows++
			if weak[string(oracle.Weak(w))] {
				n.hits++
			}
			if whole[string(w)] {
				p += c.BS
			} else {
				p++
			}
		}
		n.moreWindows, n.moreHits = n.windows, n.hits
		// windows at the end, each shorter than the one before, down to nothing
		if len(stream) >= c.BS {
			for k := 0; k <= c.BS; k++ {
				n.moreWindows++
				if weak[string(oracle.Weak(stream[len(stream)-k:]))] {
					n.moreHits++
				}
			}
		}
		if failed && n.windows > 0 { // it may be noticed before what has been read is compared
			n.windows, n.hits = 0, 0
		}
		mu.Lock()
		defer mu.Unlock()
		want.windows += n.windows
		want.hits += n.hits
		want.moreWindows += n.moreWindows
		want.moreHits += n.moreHits
		want.found += n.found
	}
	cmp := &comparer.Comparer{}
	var wg sync.WaitGroup
	for i := range c.Streams {
		if c.Par {
			wg.Add(1)
			go func() { defer wg.Done(); one(cmp, i) }()
		} else {
			one(cmp, i)
		}
	}
	wg.Wait()
	got := *cmp
	ctx := func() string { return " (reference " + e2e.Show(ref) + ")" }
	if got.StrongHashHits != want.found {
		return vh.Failf("%d strong hash hits are reported, but matches at %d places%s", got.StrongHashHits, want.found, ctx())
	}
	if got.Comparisons < want.windows || got.Comparisons > want.moreWindows {
		return vh.Failf("%d comparisons are reported, there are %d windows, with those at the end up to %d%s", got.Comparisons, want.windows, want.moreWindows, ctx())
	}
	if got.WeakHashHits < want.hits || got.WeakHashHits > want.moreHits {
		return vh.Failf("%d weak hash hits are reported, %d windows have a known weak checksum, with those at the end up to %d%s", got.WeakHashHits, want.hits, want.moreHits, ctx())
	}
	if got.StrongHashHits > got.WeakHashHits || got.WeakHashHits > got.Comparisons {
		return vh.Failf("%d strong hits, %d weak hits, %d comparisons", got.StrongHashHits, got.WeakHashHits, got.Comparisons)
	}
	r.ClassIf(got.WeakHashHits > got.StrongHashHits, "false weak hits")
	r.ClassIf(len(c.Streams) > 1, "several streams")
	r.ClassIf(c.Par && len(c.Streams) > 1, "at once")
	r.ClassIf(c.Fail > 0, "failing")
	if got.StrongHashHits > 0 && got.Comparisons > got.StrongHashHits {
		r.NonTrivial()
	}
	return nil
}

const rule = "one comparer scans one to three streams, one after the other or at once, perhaps with a reader that fails; the windows that must be compared and those with a known weak checksum are counted by definition, and the places of reported matches; non-trivial: something matched and something did not"

var check = &vh.Check{
	ID: "C28",
	Parts: []*vh.Part{
		vh.NewPart("counts", rule, 8000, 300000, true, genCase(1, 24, 200), run),
		vh.NewPart("counts-large", rule+"; up to 5000 bytes", 300, 12000, true, genCase(30, 400, 5000), run),
		vh.NewPart("counts-long", rule+"; streams of up to a million bytes", 12, 600, true, genLong, run),
	},
	Assumptions: []string{"windows shorter than a block, at the end of a stream, even the empty one, may or may not be compared"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
