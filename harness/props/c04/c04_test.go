package c04

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"sort"
	"testing"

	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/vh"
)

type tc struct {
	BS      int       `json:"bs"`
	Ref     []gen.Seg `json:"ref"`
	Stream  []gen.Seg `json:"stream"`
	Base    int64     `json:"base,omitempty"`
	Chunks  []int     `json:"chunks,omitempty"`
	WithEOF bool      `json:"withEOF,omitempty"`
	Fail    bool      `json:"fail,omitempty"`
	FailAt  int       `json:"failAt,omitempty"`
	WithErr bool      `json:"withErr,omitempty"`
	Kind    int       `json:"kind,omitempty"` // gen.Err
	Once    bool      `json:"once,omitempty"`
	SHA     bool      `json:"sha,omitempty"`  // another strong checksum
	Weak    int       `json:"weak,omitempty"` // another rolling checksum: 1 many collisions, 2 always the same
}

// weak is a poor rolling checksum that knows its window.
type weak struct {
	kind   int
	sum    byte
	window []byte
	bad    string
}

func (w *weak) wrong(f string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}
func (w *weak) Size() int      { return 4 }
func (w *weak) Reset()         { w.sum, w.window = 0, nil }
func (w *weak) AddByte(b byte) { w.sum += b; w.window = append(w.window, b) }
func (w *weak) AddBytes(bs []byte) {
	for _, b := range bs {
		w.AddByte(b)
	}
}
func (w *weak) RemoveByte(b byte, length int) {
	switch {
	case length != len(w.window):
		w.wrong("removing a byte of %d, there are %d", length, len(w.window))
	case length == 0 || b != w.window[0]:
		w.wrong("removing %d, the window is %v", b, w.window)
	default:
		w.sum -= b
		w.window = w.window[1:]
	}
}
func (w *weak) RemoveBytes(bs []byte, length int) {
	for i, b := range bs {
		w.RemoveByte(b, length-i)
	}
}
func (w *weak) AddAndRemoveBytes(add []byte, remove []byte, length int) {
	if length != len(w.window) || len(remove) > length+len(add) {
		w.wrong("rolling over %d bytes of %d, there are %d", len(remove), length, len(w.window))
		return
	}
	w.AddBytes(add)
	w.RemoveBytes(remove, length+len(add))
}
func (w *weak) SetBlock(block []byte) { w.Reset(); w.AddBytes(block) }
func (w *weak) GetSum(b []byte) {
	copy(b, []byte{w.sum, 0, 0, w.sum})
	if w.kind == 2 {
		copy(b, []byte{7, 7, 7, 7})
	}
}

// generator makes what scans, and the index.
func (c *tc) generator() (*filechecksum.FileChecksumGenerator, *weak) {
	g := filechecksum.NewFileChecksumGenerator(uint(c.BS))
	if c.SHA {
		g.StrongHash = sha1.New()
	}
	var w *weak
	if c.Weak > 0 {
		w = &weak{kind: c.Weak}
		g.WeakRollingHash = w
	}
	return g, w
}

func genCase(minBS, maxBS, maxLen int, faults bool) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS)}
		c.Ref = gen.Content(t, c.BS, maxLen)
		ref := gen.Build(c.Ref, nil)
		c.Stream = gen.Edited(t, c.BS, len(ref), maxLen)
		c.Base = rapid.SampledFrom([]int64{0, 1, 17, 1 << 33}).Draw(t, "base")
		c.Chunks = gen.Sizes(t, 2*c.BS)
		c.WithEOF = rapid.Bool().Draw(t, "withEOF")
		c.SHA = rapid.IntRange(0, 3).Draw(t, "sha") == 0
		if rapid.IntRange(0, 2).Draw(t, "otherWeak") == 0 && maxLen < 1000 {
			c.Weak = rapid.IntRange(1, 2).Draw(t, "weak")
		}
		if faults {
			c.Fail = true
			c.FailAt = gen.Pos(t, len(gen.Build(c.Stream, ref)), "failAt")
			c.WithErr = rapid.Bool().Draw(t, "withErr")
			c.Kind = gen.ErrKind(t)
			c.Once = rapid.Bool().Draw(t, "once")
		}
		return c
	}
}

func genHuge(t *rapid.T) tc {
	c := genCase(1, 24, 100, false)(t)
	c.Weak = 0
	c.BS = 65500 + gen.Pos(t, 1000, "bs")
	c.Ref = []gen.Seg{{K: "rnd", N: gen.Pos(t, 3*c.BS, "n"), V: 1}}
	if rapid.IntRange(0, 3).Draw(t, "run") == 0 {
		c.Ref = append(c.Ref, gen.Seg{K: "run", N: gen.Pos(t, 70000, "run")})
	}
	c.Stream = append(gen.Edited(t, c.BS, len(gen.Build(c.Ref, nil)), 2*c.BS), gen.Seg{K: "rnd", N: gen.Pos(t, 70000, "more"), V: 2})
	if rapid.Bool().Draw(t, "ending") {
		c.Stream = append(c.Stream, gen.Seg{K: "ref", N: 1 << 20, V: uint64(gen.Pos(t, c.BS, "from"))})
	}
	for i := range c.Chunks {
		c.Chunks[i] *= 3000
	}
	return c
}

type match struct {
	off int64
	id  uint
}

const maxFails = 20000

func scan(c tc, cmp *comparer.Comparer, g *filechecksum.FileChecksumGenerator, ix *index.ChecksumIndex, blocks int, stream []byte, chunks []int, withEOF bool) (ms []match, rerr error, err error) {
	rd := &gen.ChunkReader{Data: stream, Sizes: chunks, WithEOF: withEOF, FailAt: -1}
	if c.Fail {
		rd.FailAt, rd.WithErr, rd.Err, rd.Once = c.FailAt, c.WithErr, gen.Err(c.Kind), c.Once
		rd.OnFail = func(n int) {
			if n > maxFails {
				select {} // ignoring the failure for ever: shows up as a deadlock
			}
		}
	}
	for m := range cmp.StartFindMatchingBlocks(rd, c.Base, g, ix) {
		if rerr != nil {
			return nil, nil, vh.Failf("a result follows the error result: %+v", m)
		}
		if m.Err != nil {
			rerr = m.Err
			continue
		}
		ms = append(ms, match{m.ComparisonOffset, m.BlockIdx})
		if len(ms) > 100*(len(stream)+10)*(blocks+1) {
			return nil, nil, vh.Failf("unbounded number of results")
		}
	}
	sort.Slice(ms, func(i, j int) bool {
		if ms[i].off != ms[j].off {
			return ms[i].off < ms[j].off
		}
		return ms[i].id < ms[j].id
	})
	return ms, rerr, nil
}

func run(c tc, r *vh.Rec) error {
	ref := gen.Build(c.Ref, nil)
	stream := gen.Build(c.Stream, ref)
	ig, _ := c.generator()
	_, ix, _, err := indexbuilder.BuildChecksumIndex(ig, bytes.NewReader(ref))
	if err != nil {
		return vh.Failf("building the index: %v", err)
	}
	blocks := (len(ref) + c.BS - 1) / c.BS
	ctx := func() string {
		return fmt.Sprintf(" (block size %d, reference %s, stream %s)", c.BS, e2e.Show(ref), e2e.Show(stream))
	}
	cmp := &comparer.Comparer{}
	g, w := c.generator()
	ms, rerr, err := scan(c, cmp, g, ix, blocks, stream, c.Chunks, c.WithEOF)
	if err != nil {
		return err
	}

	// ids of the reference blocks by content
	ids := map[string][]uint{}
	start := map[string]bool{} // with which bytes they begin
	k := min(c.BS, 8)
	n := (len(ref) + c.BS - 1) / c.BS
	for i := 0; i < n; i++ {
		b := string(e2e.Block(ref, c.BS, i))
		ids[b] = append(ids[b], uint(i))
		if len(b) == c.BS {
			start[b[:k]] = true
		}
	}

	// soundness
	at := map[int]map[uint]bool{}
	for _, m := range ms {
		if m.id >= uint(n) {
			return vh.Failf("match names block %d of %d%s", m.id, n, ctx())
		}
		b := e2e.Block(ref, c.BS, int(m.id))
		o := m.off - c.Base
		if o < 0 || o+int64(len(b)) > int64(len(stream)) || !bytes.Equal(stream[o:o+int64(len(b))], b) {
			return vh.Failf("block %d reported at offset %d (base %d), where the stream does not hold it%s", m.id, m.off, c.Base, ctx())
		}
		if at[int(o)] == nil {
			at[int(o)] = map[uint]bool{}
		}
		at[int(o)][m.id] = true
	}

	if c.Fail {
		if rerr == nil {
			return vh.Failf("the read failed at offset %d but no error was reported%s", c.FailAt, ctx())
		}
		r.ClassIf(c.FailAt < c.BS, "failure in the first block")
		r.ClassIf(c.Kind == 1, "io.ErrUnexpectedEOF as the failure")
		r.ClassIf(len(ms) > 0, "failure after a match")
		r.ClassIf(c.FailAt == len(stream), "failure instead of end of file")
		if c.FailAt >= c.BS {
			r.NonTrivial()
		}
		return nil
	}
	if len(stream) < c.BS {
		r.Class("stream shorter than a block")
		return nil // nothing is promised except soundness and termination
	}
	if rerr != nil {
		return vh.Failf("scanning a readable stream reported %v%s", rerr, ctx())
	}

	// completeness
	covered := func(o int) bool { // overlapped by an earlier reported match
		for j := max(0, o-c.BS+1); j < o; j++ {
			for id := range at[j] {
				if j+len(e2e.Block(ref, c.BS, int(id))) > o {
					return true
				}
			}
		}
		return false
	}
	occ, overl := 0, 0
	for o := 0; o+c.BS <= len(stream); o++ {
		if !start[string(stream[o:o+k])] {
			continue
		}
		want := ids[string(stream[o:o+c.BS])]
		if len(want) == 0 {
			continue
		}
		occ++
		if len(at[o]) == 0 {
			if covered(o) {
				overl++
				continue
			}
			return vh.Failf("blocks %v occur at offset %d and were not reported there nor overlapped by an earlier match; matches %v%s", want, o, ms, ctx())
		}
		for _, id := range want {
			if !at[o][id] {
				return vh.Failf("at offset %d block %d has the matched content but was not reported (reported %v)%s", o, id, ms, ctx())
			}
		}
		r.ClassIf(len(want) > 1, "repeated block matched")
		r.ClassIf(o%c.BS != 0, "unaligned match")
	}
	if s := len(ref) % c.BS; s != 0 && bytes.HasSuffix(stream, ref[len(ref)-s:]) {
		o := len(stream) - s
		if !at[o][uint(n-1)] {
			return vh.Failf("the stream ends with the short last block, which was not reported at %d; matches %v%s", o, ms, ctx())
		}
		r.Class("short last block found")
	}

	// reader chunking does not matter; objects can be used again
	ms2, rerr2, err := scan(c, cmp, g, ix, blocks, stream, nil, !c.WithEOF)
	if err != nil {
		return err
	}
	if w != nil && w.bad != "" {
		return vh.Failf("the rolling checksum is used wrongly: %s%s", w.bad, ctx())
	}
	r.ClassIf(c.SHA, "SHA-1")
	r.ClassIf(c.Weak > 0, "poor rolling checksum")
	if rerr2 != nil || fmt.Sprint(ms) != fmt.Sprint(ms2) {
		return vh.Failf("scanning the same stream through another reader gave %v (%v), not %v%s", ms2, rerr2, ms, ctx())
	}
	r.ClassIf(cmp.WeakHashHits > cmp.StrongHashHits, "weak hit without strong match")
	r.ClassIf(overl > 0, "overlapped occurrence")
	r.ClassIf(c.WithEOF, "data with end of file")
	r.ClassIf(c.BS == 1, "block size 1")
	if occ > 0 && len(stream) > c.BS {
		r.NonTrivial()
	}
	return nil
}

const rule = "reference and stream built from runs, periodic, random and small-alphabet pieces and parts of the reference, random block size, base offset and reader chunking; "

var check = &vh.Check{
	ID: "C04",
	Parts: []*vh.Part{
		vh.NewPart("match", rule+"block size 1..24, up to 200 bytes; non-trivial: the stream is longer than a block and some reference block occurs in it", 12000, 400000, true, genCase(1, 24, 200, false), run),
		vh.NewPart("match-large", rule+"block size 30..400, up to 6000 bytes", 700, 25000, true, genCase(30, 400, 6000, false), run),
		vh.NewPart("match-huge", rule+"block size 65500..66500, up to 260000 bytes", 40, 1200, true, genHuge, run),
		vh.NewPart("failure", rule+"the reader fails at a random offset, on its own or together with data; non-trivial: it fails after the first block", 8000, 250000, true, genCase(1, 24, 200, true), run),
		vh.NewPart("match-giant", "a stream of more than 2 or 4 GiB that consists of reference blocks with a few unrelated bytes here and there; every match is checked; non-trivial: all", 1, 12, false, genGiant, runGiant),
	},
	Assumptions: []string{
		"MD5 collisions do not occur in generated content",
		"readers that return data together with a failure fail again when read again",
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
