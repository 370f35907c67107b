package c24

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/vh"
)

type span struct {
	Start int `json:"start"`
	N     int `json:"n"`
}

type tc struct {
	BS      int    `json:"bs"`
	Size    int    `json:"size"`          // what the source is told
	Cut     int    `json:"cut,omitempty"` // the file is so much shorter
	More    int    `json:"more,omitempty"`
	Unknown bool   `json:"unknown,omitempty"`
	Split   int    `json:"split,omitempty"`
	Verify  bool   `json:"verify,omitempty"`
	Spans   []span `json:"spans"`
	Sizes   []int  `json:"sizes,omitempty"` // of the pieces that the file is read in
	WithEOF bool   `json:"withEOF,omitempty"`

	FailAt int  `json:"failAt,omitempty"` // n-th operation, 0: never
	Part   int  `json:"part,omitempty"`   // bytes returned with the failure
	Kind   int  `json:"kind,omitempty"`
	Serial bool `json:"serial,omitempty"` // wait for each span before the next
	At     int  `json:"at,omitempty"`     // position of the file at the start
	First  int  `json:"first,omitempty"`  // blocks that precede, of which none is asked for
}

func genCase(t *rapid.T) tc {
	c := tc{BS: gen.BlockSize(t, 1, 40)}
	blocks := 1 + gen.Pos(t, 24, "blocks")
	big := rapid.IntRange(0, 60).Draw(t, "bigBlocks") == 0
	if big {
		c.BS = rapid.SampledFrom([]int{255, 256, 65535, 65536, 65537}).Draw(t, "bigBS")
		blocks = 1 + blocks%5
		if rapid.IntRange(0, 30).Draw(t, "huge") == 7 {
			c.BS = rapid.SampledFrom([]int{1 << 20, 1<<20 - 1, 1<<20 + 1, 700000}).Draw(t, "hugeBS")
			blocks = 4
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "far") == 0 {
		c.First = 1<<rapid.SampledFrom([]uint{8, 16, 31, 32, 40}).Draw(t, "first") - rapid.IntRange(0, 3).Draw(t, "before")
	}
	c.Size = blocks*c.BS - rapid.IntRange(0, c.BS-1).Draw(t, "tail")
	c.Unknown = rapid.IntRange(0, 2).Draw(t, "unknown") == 0
	if rapid.Bool().Draw(t, "splitReq") {
		c.Split = rapid.IntRange(1, 4*c.BS).Draw(t, "split")
	}
	n := rapid.IntRange(1, 5).Draw(t, "spans")
	for i := 0; i < n; i++ {
		s := span{Start: gen.Pos(t, blocks-1, "start")}
		s.N = 1 + gen.Pos(t, blocks-1-s.Start, "n")
		c.Spans = append(c.Spans, s)
	}
	c.Sizes = gen.Sizes(t, 2*c.BS)
	if big {
		for i := range c.Sizes {
			c.Sizes[i] *= max(100, c.BS/1000)
		}
	}
	c.WithEOF = rapid.Bool().Draw(t, "withEOF")
	c.Serial = rapid.Bool().Draw(t, "serial")
	c.At = gen.Pos(t, c.Size, "position")
	c.Verify = rapid.IntRange(0, 2).Draw(t, "verify") == 0
	switch rapid.IntRange(0, 3).Draw(t, "trouble") {
	case 0:
		c.Cut = 1 + gen.Pos(t, c.Size-1, "cut")
	case 1:
		c.FailAt = 1 + rapid.IntRange(0, 12).Draw(t, "failAt")
		c.Part = gen.Pos(t, 2*c.BS, "part")
		c.Kind = gen.ErrKind(t)
	case 2:
		c.More = gen.Pos(t, 3*c.BS, "more")
	}
	return c
}

// file is the reference file: read in pieces, possibly failing once.
type file struct {
	c    tc
	data []byte
	pos  int
	k, n int
	hit  bool
	g    vh.Guard
}

func (f *file) fails() bool {
	f.n++
	if f.n == f.c.FailAt {
		f.hit = true
		return true
	}
	return false
}

func (f *file) Seek(off int64, wh int) (int64, error) {
	f.g.Tick(200000)
	if f.fails() {
		return 0, gen.Err(f.c.Kind)
	}
	switch wh {
	case io.SeekStart:
		off -= int64(f.c.First * f.c.BS)
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off+int64(f.c.First*f.c.BS) < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = int(off)
	return off + int64(f.c.First*f.c.BS), nil
}

func (f *file) Read(p []byte) (int, error) {
	f.g.Tick(200000)
	if len(p) == 0 {
		return 0, nil
	}
	if f.fails() {
		n := copy(p[:min(f.c.Part, len(p)-1)], f.data[max(0, min(f.pos, len(f.data))):])
		f.pos += n
		return n, gen.Err(f.c.Kind)
	}
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	if f.pos < 0 { // nobody should be interested in what is there
		n := min(len(p), -f.pos)
		for i := range p[:n] {
			p[i] = 0xAA
		}
		f.pos += n
		return n, nil
	}
	n := len(p)
	if len(f.c.Sizes) > 0 {
		n = min(n, f.c.Sizes[f.k%len(f.c.Sizes)])
		f.k++
	}
	n = copy(p[:n], f.data[f.pos:])
	f.pos += n
	if n > 0 && f.pos == len(f.data) && f.c.WithEOF {
		return n, io.EOF
	}
	return n, nil
}

// shifted renumbers the blocks.
type shifted struct {
	sums  filechecksum.ChecksumLookup
	first int
}

func (s shifted) GetStrongChecksumForBlock(i int) []byte {
	return s.sums.GetStrongChecksumForBlock(i - s.first)
}

func run(c tc, r *vh.Rec) error {
	all := gen.Expand(uint64(c.Size), c.Size+c.More)
	f := &file{c: c, data: all[:len(all)-c.Cut], pos: c.At}
	told := int64(c.First*c.BS + c.Size)
	if c.Unknown {
		told = 0
	}
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(c.BS), FileSize: told, MaxDesiredRequestSize: uint64(c.Split)}
	src := blocksources.NewReadSeekerBlockSource(f, res)
	if c.Verify {
		sum, err := e2e.Summary(all[:c.Size], c.BS)
		if err != nil {
			return vh.Failf("%v", err)
		}
		src.Verifier = &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(c.BS), BlockChecksumGetter: shifted{sum, c.First}}
	}
	defer src.Close()

	// limit is where what can be delivered ends
	limit := len(f.data)
	if !c.Unknown {
		limit = min(limit, c.Size)
	}
	mustFail, short := false, false // short: the last block is not what was indexed
	left := 0                       // blocks to come
	for _, s := range c.Spans {
		a, b := s.Start*c.BS, (s.Start+s.N)*c.BS
		if !c.Unknown {
			b = min(b, c.Size)
		}
		if have := max(0, min(b, limit)-a); (have+c.BS-1)/c.BS < s.N {
			mustFail = true // whole blocks are missing
		} else if have < min(b, c.Size)-a {
			short = true
		}
		if min(b, limit) > c.Size {
			short = true // the last block is longer than its checksum says
		}
	}
	ctx := func() string {
		return fmt.Sprintf(" (block size %d, numbered from %d, file of %d bytes from there, source told %d, spans %v, failure %d hit %v)", c.BS, c.First, len(f.data), told, c.Spans, c.FailAt, f.hit)
	}

	var got []patcher.BlockReponse
	var serr error
	count := map[int]int{}
	receive := func() error {
		for left > 0 && serr == nil {
			select {
			case x, ok := <-src.GetResultChannel():
				if !ok {
					return vh.Failf("the result channel closed while %d blocks were outstanding and no error was reported%s", left, ctx())
				}
				x.StartBlock -= uint(c.First) // relative, as everything here
				if int(x.StartBlock) < 0 {
					return vh.Failf("a response for block %d, which was not requested%s", int(x.StartBlock)+c.First, ctx())
				}
				n := (len(x.Data) + c.BS - 1) / c.BS
				if n == 0 {
					return vh.Failf("an empty response for block %d%s", x.StartBlock, ctx())
				}
				if !bytes.HasPrefix(all[min(len(all), int(x.StartBlock)*c.BS):min(limit, len(all))], x.Data) {
					return vh.Failf("the response for block %d holds %d bytes that are not those of the file there%s", x.StartBlock, len(x.Data), ctx())
				}
				if end := int(x.StartBlock)*c.BS + len(x.Data); len(x.Data)%c.BS != 0 && end != limit {
					return vh.Failf("the response for block %d ends at byte %d, in the middle of a block%s", x.StartBlock, end, ctx())
				}
				for i := 0; i < n; i++ {
					count[int(x.StartBlock)+i]++
				}
				left -= n
				got = append(got, x)
			case e, ok := <-src.EncounteredError():
				if !ok {
					return vh.Failf("the error channel closed while %d blocks were outstanding and no error was reported%s", left, ctx())
				}
				serr = e
			}
		}
		return nil
	}
	wantCount := map[int]int{}
	asked := 0
	for _, s := range c.Spans {
		if serr != nil {
			break
		}
		if err := src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: int64(c.BS), StartBlock: uint(c.First + s.Start), EndBlock: uint(c.First + s.Start + s.N - 1)}); err != nil {
			if c.Serial || !(f.hit || mustFail || short) {
				return vh.Failf("request refused: %v%s", err, ctx())
			}
			break
		}
		asked++
		left += s.N
		for i := 0; i < s.N; i++ {
			wantCount[s.Start+i]++
		}
		if c.Serial {
			if err := receive(); err != nil {
				return err
			}
		}
	}
	if err := receive(); err != nil {
		return err
	}
	fails := mustFail || f.hit || short && c.Verify
	if serr != nil && !fails {
		return vh.Failf("error %v although the file holds what was asked for%s", serr, ctx())
	}
	if serr == nil && fails {
		return vh.Failf("no error although the file failed or lacks blocks%s", ctx())
	}
	if serr == nil {
		for b, n := range wantCount {
			if count[b] != n {
				return vh.Failf("block %d was delivered %d times, requested %d times%s", b, count[b], n, ctx())
			}
		}
	}
	total := int64(0)
	for _, x := range got {
		if !bytes.HasPrefix(all[int(x.StartBlock)*c.BS:], x.Data) {
			return vh.Failf("the response for block %d changed after it was delivered%s", x.StartBlock, ctx())
		}
		total += int64(len(x.Data))
	}
	if serr == nil && src.ReadBytes() != total {
		return vh.Failf("%d bytes were delivered but %d are reported%s", total, src.ReadBytes(), ctx())
	}
	r.ClassIf(c.First > 0, "high block numbers")
	r.ClassIf(c.BS > 65000, "blocks beyond 16 bits")
	r.ClassIf(c.BS > 600000, "blocks of a MB")
	r.ClassIf(f.hit, "failing operation")
	r.ClassIf(f.hit && c.Kind == 1, "io.ErrUnexpectedEOF as the failure")
	r.ClassIf(mustFail, "blocks beyond the end of the file")
	r.ClassIf(short && !mustFail, "last block differs from the index")
	r.ClassIf(c.More > 0, "file longer than told")
	r.ClassIf(c.At > 0, "file not at its start")
	r.ClassIf(c.Unknown, "file size not told")
	r.ClassIf(len(c.Spans) > 1 && !c.Serial, "spans requested at once")
	if fails || len(got) > 1 {
		r.NonTrivial()
	}
	return nil
}

var check = &vh.Check{
	ID: "C24",
	Parts: []*vh.Part{
		vh.NewPart("file", "one to five spans in any order, at once or one after another, requested from a source over a generated file, positioned anywhere, that is read in generated pieces, may be shorter or longer than the source was told, or fails at its n-th operation with data or without; non-trivial: several responses, or a failure", 50000, 2000000, true, genCase, run),
	},
	Assumptions: []string{"only the source uses the file (one fetch at a time)", "spans lie within the size the source was told, if it was told one"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
