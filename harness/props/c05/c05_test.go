package c05

import (
	"errors"
	"fmt"
	"reflect"
	"testing"
	"testing/synctest"

	"github.com/Redundancy/go-sync/comparer"
	"pgregory.net/rapid"
	"verif/vh"
)

type res struct {
	ID  uint  `json:"id"`
	Off int64 `json:"off"`
	S   int   `json:"s"` // stream
}

type tc struct {
	BS      int64  `json:"bs"`
	N       int    `json:"n"`               // blocks in the reference, from Shift on
	Shift   uint   `json:"shift,omitempty"` // added to all block numbers
	Far     int64  `json:"far,omitempty"`   // added to all offsets
	Later   int    `json:"later,omitempty"` // streams that start after the first result was asked for
	Streams int    `json:"streams"`
	Res     []res  `json:"res"`
	ErrEnd  []bool `json:"errEnd,omitempty"` // streams that end in an error result
	Many    *many  `json:"many,omitempty"`   // results that are made by a rule
}

// many makes results: of every block but each Skip-th, in the order that adding
// Step gives, contiguous but for a shift after each Every-th.
type many struct {
	Skip  int `json:"skip"`
	Every int `json:"every"`
	Step  int `json:"step"`
	Twice int `json:"twice"` // each Twice-th is reported a second time, elsewhere
}

// expand replaces the rule by the results.
func (c *tc) expand() {
	m := c.Many
	if m == nil {
		return
	}
	c.Many = nil
	id := 0
	for i := 0; i < c.N; i++ {
		id = (id + m.Step) % c.N
		if m.Skip > 0 && id%m.Skip == 0 {
			continue
		}
		x := res{ID: uint(id), S: i % c.Streams, Off: int64(id)*c.BS + int64(id/m.Every%3)}
		c.Res = append(c.Res, x)
		if m.Twice > 0 && id%m.Twice == 0 {
			x.Off += 5
			c.Res = append(c.Res, x)
		}
	}
}

func genMany(t *rapid.T) tc {
	c := genCase(4, 1)(t)
	c.Res = nil
	c.N = rapid.IntRange(1, 20).Draw(t, "n") * rapid.SampledFrom([]int{1000, 100, 10}).Draw(t, "scale")
	c.Many = &many{
		Skip:  rapid.SampledFrom([]int{0, 2, 3, 7, 1000}).Draw(t, "skip"),
		Every: rapid.SampledFrom([]int{1, 1, 2, 5, 100, 100000}).Draw(t, "every"),
		Step:  rapid.SampledFrom([]int{1, c.N - 1, 7919, 3}).Draw(t, "step"),
		Twice: rapid.SampledFrom([]int{0, 0, 3, 50}).Draw(t, "twice"),
	}
	return c
}

func genCase(maxN, maxRes int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: rapid.Int64Range(1, 9).Draw(t, "bs"), N: rapid.IntRange(1, maxN).Draw(t, "n")}
		c.Streams = rapid.IntRange(1, 4).Draw(t, "streams")
		if rapid.IntRange(0, 3).Draw(t, "large") == 0 {
			c.BS = rapid.SampledFrom([]int64{1 << 13, 1<<16 - 1, 1 << 20, 1 << 31, 1 << 33}).Draw(t, "large bs")
			c.Shift = rapid.SampledFrom([]uint{0, 1<<16 - 3, 1<<31 - 3, 1<<32 - 3, 1 << 40}).Draw(t, "shift")
			c.Far = rapid.SampledFrom([]int64{0, 1<<31 - 5, 1<<32 - 5, 1 << 45}).Draw(t, "far")
		}
		if rapid.IntRange(0, 3).Draw(t, "in two steps") == 0 {
			c.Later = rapid.IntRange(0, c.Streams).Draw(t, "later")
		}
		bases := rapid.SliceOfN(rapid.Int64Range(0, 40), 1, 3).Draw(t, "bases")
		one := rapid.Custom(func(t *rapid.T) res {
			r := res{ID: uint(rapid.IntRange(0, c.N-1).Draw(t, "id")), S: rapid.IntRange(0, c.Streams-1).Draw(t, "s")}
			if rapid.IntRange(0, 5).Draw(t, "far") == 0 {
				r.Off = rapid.Int64Range(0, 60).Draw(t, "off")
			} else {
				r.Off = rapid.SampledFrom(bases).Draw(t, "base") + int64(r.ID)*c.BS
			}
			return r
		})
		c.Res = rapid.SliceOfN(one, 0, maxRes).Draw(t, "res")
		if rapid.Bool().Draw(t, "permutation") {
			// every block once, in a random order, mostly contiguous
			ids := rapid.Permutation(iota_(c.N)).Draw(t, "perm")
			c.Res = nil
			for _, id := range ids {
				c.Res = append(c.Res, res{ID: uint(id), Off: rapid.SampledFrom(bases).Draw(t, "base") + int64(id)*c.BS, S: rapid.IntRange(0, c.Streams-1).Draw(t, "s")})
			}
		}
		for i := 0; i < c.Streams; i++ {
			c.ErrEnd = append(c.ErrEnd, rapid.IntRange(0, 3).Draw(t, "errEnd") == 0)
		}
		return c
	}
}

func iota_(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func feed(c tc, free bool) (comparer.BlockSpanList, error) {
	m := &comparer.MatchMerger{}
	first := c.Streams - c.Later
	list, err := feedStreams(c, m, 0, first, free)
	if err != nil || c.Later == 0 {
		return list, err
	}
	before := append(comparer.BlockSpanList{}, list...)
	all, err := feedStreams(c, m, first, c.Streams, free)
	if err == nil && !reflect.DeepEqual(before, append(comparer.BlockSpanList{}, list...)) {
		err = vh.Failf("the list of spans changed after it was returned: %v, was %v", list, before)
	}
	return all, err
}

// feedStreams feeds the given range of streams and asks for the result, twice.
func feedStreams(c tc, m *comparer.MatchMerger, from, to int, free bool) (comparer.BlockSpanList, error) {
	chans := make([]chan comparer.BlockMatchResult, c.Streams)
	for i := from; i < to; i++ {
		chans[i] = make(chan comparer.BlockMatchResult)
		m.StartMergeResultStream(chans[i], c.BS)
	}
	end := func(i int) {
		if c.ErrEnd[i] {
			chans[i] <- comparer.BlockMatchResult{Err: errors.New("end of this stream")}
		}
		close(chans[i])
	}
	if free {
		for i := from; i < to; i++ {
			go func() {
				for _, r := range c.Res {
					if r.S == i {
						chans[i] <- comparer.BlockMatchResult{BlockIdx: r.ID + c.Shift, ComparisonOffset: r.Off + c.Far}
					}
				}
				end(i)
			}()
		}
	} else {
		for _, r := range c.Res {
			if r.S < from || r.S >= to {
				continue
			}
			chans[r.S] <- comparer.BlockMatchResult{BlockIdx: r.ID + c.Shift, ComparisonOffset: r.Off + c.Far}
			synctest.Wait() // this result is processed before the next one is sent
		}
		for i := from; i < to; i++ {
			end(i)
		}
	}
	list := m.GetMergedBlocks()
	if again := m.GetMergedBlocks(); !reflect.DeepEqual(list, again) {
		return nil, vh.Failf("asking twice gives %v and %v", list, again)
	}
	return list, nil
}

func verify(c tc, spans comparer.BlockSpanList, r *vh.Rec) error {
	reported := map[uint]map[int64]bool{}
	for _, x := range c.Res {
		x.ID += c.Shift
		x.Off += c.Far
		if reported[x.ID] == nil {
			reported[x.ID] = map[int64]bool{}
		}
		reported[x.ID][x.Off] = true
	}
	covered := map[uint]bool{}
	for i, s := range spans {
		if s.StartBlock > s.EndBlock {
			return vh.Failf("inverted span %+v in %+v", s, spans)
		}
		if i > 0 {
			p := spans[i-1]
			if p.EndBlock >= s.StartBlock {
				return vh.Failf("spans overlap or are not sorted: %+v", spans)
			}
			if p.EndBlock+1 == s.StartBlock && p.ComparisonStartOffset+c.BS*int64(p.EndBlock-p.StartBlock+1) == s.ComparisonStartOffset {
				return vh.Failf("spans %+v and %+v are contiguous but not merged: %+v", p, s, spans)
			}
		}
		if s.EndBlock-s.StartBlock > uint(len(c.Res)) {
			return vh.Failf("span %+v is larger than the number of results", s)
		}
		for b := s.StartBlock; b <= s.EndBlock; b++ {
			off := s.ComparisonStartOffset + c.BS*int64(b-s.StartBlock)
			if !reported[b][off] {
				return vh.Failf("span %+v puts block %d at offset %d, where it was not reported; spans %+v results %+v", s, b, off, spans, c.Res)
			}
			covered[b] = true
		}
	}
	for id := range reported {
		if !covered[id] {
			return vh.Failf("block %d was reported but is in no span; spans %+v results %+v", id, spans, c.Res)
		}
	}
	// missing list
	for _, maxBlock := range []uint{c.Shift + uint(c.N-1), c.Shift + uint(c.N), c.Shift + 5*uint(c.N)} {
		missing := spans.GetMissingBlocks(maxBlock)
		var want [][2]uint
		add := func(a, b uint) {
			if n := len(want); n > 0 && want[n-1][1]+1 == a {
				want[n-1][1] = b
			} else {
				want = append(want, [2]uint{a, b})
			}
		}
		if c.Shift > 0 {
			add(0, c.Shift-1)
		}
		for b := c.Shift; b <= maxBlock; b++ {
			if !covered[b] {
				add(b, b)
			}
		}
		var got [][2]uint
		for _, s := range missing {
			got = append(got, [2]uint{s.StartBlock, s.EndBlock})
		}
		if !reflect.DeepEqual(got, want) {
			return vh.Failf("the missing spans are %v, expected %v (last block %d), merged %+v", got, want, maxBlock, spans)
		}
	}
	r.ClassIf(len(spans) > 2000, "more than 2000 spans")
	multi := false
	for _, s := range spans {
		multi = multi || s.EndBlock > s.StartBlock
	}
	for i := 1; i < len(spans); i++ {
		r.ClassIf(spans[i-1].EndBlock+1 == spans[i].StartBlock, "adjacent spans with different offsets")
	}
	r.ClassIf(multi, "merged span")
	r.ClassIf(c.Later > 0, "streams merged later")
	r.ClassIf(c.Later == c.Streams, "asked for before any stream")
	r.ClassIf(c.Shift > 1<<30 && multi, "block numbers beyond 30 bits")
	r.ClassIf(len(c.Res) > len(covered), "block reported several times")
	r.ClassIf(len(covered) == c.N && c.N > 1, "everything covered")
	r.ClassIf(len(covered) == 0, "nothing covered")
	if len(c.Res) >= 3 && multi {
		r.NonTrivial()
	}
	return nil
}

func runOrdered(c tc, r *vh.Rec) error {
	c.expand()
	spans, err := feed(c, false)
	if err != nil {
		return err
	}
	return verify(c, spans, r)
}

func runFree(c tc, r *vh.Rec) error {
	c.expand()
	spans, err := feed(c, true)
	if err != nil {
		return err
	}
	r.Class(fmt.Sprintf("%d streams", c.Streams))
	return verify(c, spans, r)
}

const rule = "random multisets of (block, offset) results, mostly on a few common alignments so that neighbours continue each other, and permutations of all blocks, spread over 1..4 streams some of which end in an error, merged at once or in two steps, at small and at very large block numbers, sizes and offsets; "

var check = &vh.Check{
	ID: "C05",
	Parts: []*vh.Part{
		vh.NewPart("ordered", rule+"every result is processed before the next is sent, in the generated order; non-trivial: at least 3 results and a span of at least 2 blocks", 80000, 900000, true, genCase(10, 16), runOrdered),
		vh.NewPart("ordered-large", rule+"as ordered, up to 80 blocks and 200 results", 8000, 90000, true, genCase(80, 200), runOrdered),
		vh.NewPart("free", rule+"all streams are fed concurrently", 40000, 450000, true, genCase(14, 40), runFree),
		vh.NewPart("many", "up to 20000 blocks reported by a rule (some left out, some twice, in another order, shifted now and then) in 1..4 streams that are fed concurrently; non-trivial: at least 3 results and a span of at least 2 blocks", 60, 2000, true, genMany, runFree),
	},
	Assumptions: []string{"the last block passed to GetMissingBlocks is at least the highest reported block", "an error result is the last one of its stream, as the comparer guarantees (C04)"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
