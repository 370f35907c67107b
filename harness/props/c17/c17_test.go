package c17

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/vh"
)

// span is a run of blocks of the plan.
type span struct {
	Local  bool  `json:"local,omitempty"`
	N      int   `json:"n"`
	Pieces []int `json:"pieces,omitempty"` // remote: blocks per response, cycled
	Gap    int   `json:"gap,omitempty"`    // local: unrelated bytes before it in the local file
}

type fault struct {
	K  string `json:"k"`
	At int    `json:"at,omitempty"` // which span, response, read, seek; or offset
	By int    `json:"by,omitempty"`
}

type tc struct {
	BS    int    `json:"bs"`
	Tail  int    `json:"tail,omitempty"` // bytes missing from the last block
	Spans []span `json:"spans"`
	Rev   bool   `json:"rev,omitempty"`   // local file holds the spans in reverse order
	Extra int    `json:"extra,omitempty"` // bytes after the last local span
	Short int    `json:"short,omitempty"` // bytes per local read
	Hole  int64  `json:"hole,omitempty"`  // bytes before everything else in the local file
	Fault fault  `json:"fault"`
	Seed  uint64 `json:"seed"`
}

var faults = []string{"gap", "unexpected", "toomuch", "toolittle", "empty", "srcerr", "reqerr", "closed", "seek", "read", "trunc", "write"}

func genCase(maxBS, maxSpans int, faulty bool) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: rapid.IntRange(1, maxBS).Draw(t, "bs"), Seed: rapid.Uint64Range(0, 1000).Draw(t, "seed")}
		if rapid.Bool().Draw(t, "short last") {
			c.Tail = rapid.IntRange(0, c.BS-1).Draw(t, "tail")
		}
		n := 1 + gen.Pos(t, maxSpans-1, "spans")
		for i := 0; i < n; i++ {
			s := span{Local: rapid.Bool().Draw(t, "local"), N: rapid.IntRange(1, 6).Draw(t, "n")}
			if s.Local {
				s.Gap = rapid.IntRange(0, 2*c.BS).Draw(t, "gap")
			} else {
				s.Pieces = rapid.SliceOfN(rapid.IntRange(1, 6), 1, 3).Draw(t, "pieces")
			}
			c.Spans = append(c.Spans, s)
		}
		c.Rev = rapid.Bool().Draw(t, "rev")
		c.Extra = rapid.IntRange(0, 2*c.BS).Draw(t, "extra")
		if rapid.IntRange(0, 4).Draw(t, "far") == 0 {
			c.Hole = 1<<rapid.SampledFrom([]uint{16, 31, 32, 41}).Draw(t, "hole") - int64(rapid.IntRange(0, 4*c.BS).Draw(t, "before"))
			c.Hole = max(0, c.Hole)
		}
		c.Short = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "short")
		if faulty {
			c.Fault = fault{K: rapid.SampledFrom(faults).Draw(t, "fault"), At: gen.Pos(t, 11, "at"), By: rapid.IntRange(1, 8).Draw(t, "by")}
		}
		return c
	}
}

func genHuge(t *rapid.T) tc {
	c := genCase(5, 5, false)(t)
	if rapid.Bool().Draw(t, "many") {
		for i := range c.Spans {
			c.Spans[i].N = rapid.SampledFrom([]int{1, 3, 40000, 65535, 65536, 70000}).Draw(t, "n")
			for j := range c.Spans[i].Pieces {
				c.Spans[i].Pieces[j] *= rapid.SampledFrom([]int{30000, 65536, 11000}).Draw(t, "piece")
			}
		}
	} else {
		c.BS = rapid.SampledFrom([]int{65535, 65536, 65537, 70001, 131072}).Draw(t, "bs")
		c.Tail = min(c.Tail*15000, c.BS-1)
		c.Gaps(t)
	}
	c.Short *= 4000
	return c
}

// Gaps redraws the gaps for the block size.
func (c *tc) Gaps(t *rapid.T) {
	for i := range c.Spans {
		c.Spans[i].N = min(c.Spans[i].N, 3)
		if c.Spans[i].Local {
			c.Spans[i].Gap = gen.Pos(t, 2*c.BS, "gap")
		}
	}
}

// source answers every request at once with the scripted responses.
type source struct {
	c        tc
	spans    map[uint]span
	file     []byte
	blocks   int
	maxBlock uint
	results  chan patcher.BlockReponse
	errs     chan error
	n        int // responses made
	requests []patcher.MissingBlockSpan
	hit      bool // the fault took effect
	dead     bool
}

func (s *source) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *source) EncounteredError() <-chan error                { return s.errs }

func (s *source) RequestBlocks(m patcher.MissingBlockSpan) error {
	k := s.c.Fault
	s.requests = append(s.requests, m)
	if len(s.requests) > 1000 {
		panic("more than 1000 requests")
	}
	if s.dead {
		return errors.New("closed")
	}
	if k.K == "reqerr" && k.At%max(1, len(s.spans)) == len(s.requests)-1 {
		s.hit, s.dead = true, true
		return errors.New("request refused")
	}
	sp, ok := s.spans[m.StartBlock]
	if !ok {
		return nil // judged by the caller through s.requests
	}
	done := 0
	for i := 0; done < sp.N; i++ {
		p := min(sp.Pieces[i%len(sp.Pieces)], sp.N-done)
		first := int(m.StartBlock) + done
		done += p
		data := append([]byte{}, s.file[first*s.c.BS:min(len(s.file), (first+p)*s.c.BS)]...)
		r := patcher.BlockReponse{StartBlock: uint(first), Data: data}
		this := s.n == k.At
		s.n++
		lastPiece := done == sp.N
		final := lastPiece && m.StartBlock+uint(sp.N)-1 == s.maxBlock
		if this && !s.hit {
			switch k.K {
			case "srcerr":
				s.hit, s.dead = true, true
				s.errs <- errors.New("source failed")
				return nil
			case "closed":
				s.hit, s.dead = true, true
				close(s.results)
				if k.By%2 == 0 {
					close(s.errs)
				}
				return nil
			case "unexpected":
				s.hit = true
				if k.By%2 == 0 && int(r.StartBlock) >= k.By/2 {
					r.StartBlock -= uint(k.By / 2)
				} else {
					r.StartBlock += uint(k.By)
				}
			case "toomuch":
				if lastPiece { // otherwise it would be a larger piece
					s.hit = true
					full := make([]byte, p*s.c.BS+k.By)
					copy(full, data)
					r.Data = full
				}
			case "toolittle":
				// whole blocks less leave the rest to come; the end of the file may be short
				if cut := k.By % s.c.BS; !final && cut != 0 && cut < len(data) {
					s.hit = true
					r.Data = data[:len(data)-cut]
				}
			case "empty":
				s.hit = true
				r.Data = nil
			}
		}
		s.results <- r
	}
	return nil
}

// behind is a file with a hole before its content.
type behind struct {
	f    *e2e.LocalFile
	hole int64
}

func (b *behind) Read(p []byte) (int, error) { return b.f.Read(p) }

func (b *behind) Seek(off int64, wh int) (int64, error) {
	if wh == io.SeekStart {
		if off < b.hole {
			return 0, errors.New("in the hole, where nothing is")
		}
		off -= b.hole
	}
	n, err := b.f.Seek(off, wh)
	return n + b.hole, err
}

type out struct {
	bytes.Buffer
	failAt int
	whole  bool // the failing write takes everything
	hit    bool
}

func (o *out) Write(p []byte) (int, error) {
	if o.failAt >= 0 && o.Len()+len(p) > o.failAt {
		n := max(0, o.failAt-o.Len())
		o.Buffer.Write(p[:n])
		o.hit = true
		if o.whole {
			o.Buffer.Write(p[n:])
			n = len(p)
		}
		return n, errors.New("no space left")
	}
	return o.Buffer.Write(p)
}

func run(c tc, r *vh.Rec) error {
	total := 0
	for _, s := range c.Spans {
		total += s.N
	}
	file := gen.Expand(c.Seed, total*c.BS-c.Tail)
	bs := int64(c.BS)
	var found []patcher.FoundBlockSpan
	var missing []patcher.MissingBlockSpan
	src := &source{c: c, file: file, spans: map[uint]span{}, blocks: total, maxBlock: uint(total - 1),
		results: make(chan patcher.BlockReponse, 4096), errs: make(chan error, 4096)}
	b := 0
	first := make([]int, len(c.Spans))
	for i, s := range c.Spans {
		first[i] = b
		b += s.N
	}
	// the local file
	local := []byte{}
	offset := map[int]int64{}
	place := func(i int) {
		s := c.Spans[i]
		if !s.Local {
			return
		}
		local = append(local, gen.Expand(c.Seed+uint64(i)+77, s.Gap)...)
		offset[i] = int64(len(local))
		local = append(local, file[first[i]*c.BS:min(len(file), (first[i]+s.N)*c.BS)]...)
	}
	shortLast := len(file)%c.BS != 0 && c.Spans[len(c.Spans)-1].Local
	if c.Rev && !shortLast {
		for i := len(c.Spans) - 1; i >= 0; i-- {
			place(i)
		}
	} else {
		for i := range c.Spans {
			place(i)
		}
	}
	if !shortLast { // a short last local block ends with the local file
		local = append(local, gen.Expand(c.Seed+55, c.Extra)...)
	}

	hit := false
	dropped := -1
	if c.Fault.K == "gap" && len(c.Spans) > 1 {
		dropped = c.Fault.At % (len(c.Spans) - 1)
		hit = true
	}
	var wantReq []patcher.MissingBlockSpan
	for i, s := range c.Spans {
		if i == dropped {
			continue
		}
		if s.Local {
			found = append(found, patcher.FoundBlockSpan{StartBlock: uint(first[i]), EndBlock: uint(first[i] + s.N - 1), BlockSize: bs, MatchOffset: c.Hole + offset[i]})
		} else {
			m := patcher.MissingBlockSpan{StartBlock: uint(first[i]), EndBlock: uint(first[i] + s.N - 1), BlockSize: bs}
			missing = append(missing, m)
			wantReq = append(wantReq, m)
			src.spans[m.StartBlock] = s
		}
	}
	o := &out{failAt: -1}
	lf := &e2e.LocalFile{Short: c.Short}
	n := 0
	switch c.Fault.K {
	case "seek":
		lf.OnSeek = func() error {
			if n++; n == c.Fault.At%max(1, len(found))+1 {
				hit = true
				return errors.New("cannot seek")
			}
			return nil
		}
	case "read":
		lf.OnRead = func() error {
			if n++; n == c.Fault.At+1 {
				hit = true
				return errors.New("cannot read")
			}
			return nil
		}
	case "trunc":
		// cut into a local span that is not the end of the reference
		for i, s := range c.Spans {
			if s.Local && i < len(c.Spans)-1 && i >= c.Fault.At%len(c.Spans) {
				local = local[:offset[i]+int64(s.N*c.BS-1-(c.Fault.By-1)%(s.N*c.BS))]
				hit = true
				break
			}
		}
	case "write":
		o.failAt = c.Fault.At * len(file) / 12
		o.whole = c.Fault.By%2 == 0
	}
	lf.Reader = bytes.NewReader(local)

	err := sequential.SequentialPatcher(&behind{lf, c.Hole}, src, missing, found, 1<<20, o)

	hit = hit || src.hit || o.hit
	if hit {
		r.Class("fault: " + c.Fault.K)
		r.ClassIf(o.Len() > 0, "fault after some output")
		if err == nil {
			return vh.Failf("success in spite of a fault (%+v); output %s", c.Fault, e2e.Diff(o.Bytes(), file))
		}
		r.NonTrivial()
		return nil
	}
	if err != nil {
		return vh.Failf("failed: %v", err)
	}
	if !bytes.Equal(o.Bytes(), file) {
		return vh.Failf("output is wrong: %s", e2e.Diff(o.Bytes(), file))
	}
	asked := map[uint]int{}
	for _, m := range src.requests {
		for b := m.StartBlock; b <= m.EndBlock; b++ {
			asked[b]++
		}
	}
	for _, m := range wantReq {
		for b := m.StartBlock; b <= m.EndBlock; b++ {
			if asked[b] != 1 {
				return vh.Failf("remote block %d was requested %d times", b, asked[b])
			}
			delete(asked, b)
		}
	}
	if len(asked) > 0 {
		return vh.Failf("blocks that are available locally were requested: %v", asked)
	}
	r.ClassIf(len(found) > 0 && len(missing) > 0, "local and remote spans")
	r.ClassIf(src.n > len(missing), "span delivered in pieces")
	r.ClassIf(c.Rev && len(found) > 1, "local spans in reverse order")
	r.ClassIf(c.Hole > 1<<30 && len(found) > 0, "local spans beyond 32 bits")
	r.ClassIf(c.Tail > 0, "short last block")
	if len(c.Spans) > 1 {
		r.NonTrivial()
	}
	return nil
}

const rule = "sequences of local and remote spans over a random file with whole or short last block, local spans at shifted or reversed positions of the local file, remote spans delivered in pieces of 1..6 blocks"

var check = &vh.Check{
	ID: "C17",
	Parts: []*vh.Part{
		vh.NewPart("assemble", rule+"; output, requests and success are checked; non-trivial: more than one span", 45000, 600000, true, genCase(9, 12, false), run),
		vh.NewPart("assemble-large", rule+"; block size up to 3000", 900, 15000, true, genCase(3000, 12, false), run),
		vh.NewPart("assemble-huge", rule+"; block sizes around 65536, or spans of up to 70000 blocks", 20, 500, true, genHuge, run),
		vh.NewPart("faults-huge", "as faults, block sizes around 65536, or spans of up to 70000 blocks", 20, 500, true, func(t *rapid.T) tc {
			c := genHuge(t)
			c.Fault = genCase(9, 8, true)(t).Fault
			return c
		}, run),
		vh.NewPart("faults", rule+"; one fault: a missing span, a response for another block, too much or too little data, an empty response, an error, a refused request, closed channels, a failing seek, read or write, a local file that ends too early; non-trivial: the fault took effect", 75000, 900000, true, genCase(9, 8, true), run),
		vh.NewPart("giant", "a local span of more than 2 or 4 GiB in a virtual local file, which may end too early, between a few remote blocks; non-trivial: all", 1, 12, false, genGiant, runGiant),
	},
	Assumptions: []string{
		"the spans are sorted and disjoint and end with the last block of the file",
		"the size of the last block is not known to the sequential patcher: a last response or local read that is only short inside the last block is not judged here (Patch compares the total length, see C02)",
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
