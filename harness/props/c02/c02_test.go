package c02

import (
	"bytes"
	"errors"
	"io"
	"sync"
	"testing"

	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/vh"
)

type fault struct {
	K    string `json:"k"`
	At   int    `json:"at,omitempty"`   // which operation; or byte offset
	By   int    `json:"by,omitempty"`   // how much
	Once bool   `json:"once,omitempty"` // transient
	Kind int    `json:"kind,omitempty"` // of error, gen.Err
}

type tc struct {
	P      e2e.Case `json:"p"`
	Faults []fault  `json:"faults"`
}

var srcKinds = map[string]bool{"err": true, "flip": true, "trunc": true, "extend": true, "next": true}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{P: e2e.Gen(t, minBS, maxBS, maxLen)}
		if rapid.IntRange(0, 2).Draw(t, "verify") > 0 {
			c.P.Source = "verified"
		}
		if c.P.Source == "readseeker" {
			c.P.Source = "base" // so that faults can be placed; see also the part "short source"
		}
		if c.P.SrcConc == 0 {
			c.P.SrcConc = rapid.IntRange(1, 4).Draw(t, "srcConc")
		}
		kinds := []string{"err", "trunc", "extend", "next", "readat", "read", "seek", "shrink", "write", "empty"}
		if c.P.Source == "verified" {
			kinds = append(kinds, "flip", "flip", "flip", "swap", "flip2")
		}
		n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "faults")
		lengths := 0
		for i := 0; i < n; i++ {
			f := fault{K: rapid.SampledFrom(kinds).Draw(t, "fault"), Once: rapid.Bool().Draw(t, "once"), Kind: gen.ErrKind(t)}
			switch f.K {
			case "trunc", "extend", "next", "empty":
				// without checksums, two wrong lengths could make up for each other
				if lengths++; lengths > 1 && c.P.Source != "verified" {
					continue
				}
				if f.K == "extend" && c.P.Source != "verified" {
					c.P.Split = 0 // else the excess can pass for the following blocks
				}
				f.At = rapid.IntRange(0, 4).Draw(t, "at")
				f.By = 1 + gen.Pos(t, 3*c.P.BS, "by")
				if c.P.Source != "verified" {
					f.Once = true
				}
			case "err", "flip", "flip2", "swap":
				f.At = rapid.IntRange(0, 4).Draw(t, "at")
				f.By = gen.Pos(t, 4*c.P.BS, "by")
			case "readat":
				f.At = rapid.IntRange(0, 12).Draw(t, "at")
			case "read", "seek":
				f.At = rapid.IntRange(0, 8).Draw(t, "at")
			case "shrink":
				f.At = rapid.IntRange(0, 24).Draw(t, "at")
				f.By = 1 + gen.Pos(t, 4*c.P.BS, "by")
			case "write":
				f.At = gen.Pos(t, 16, "at") // sixteenths of the reference
				f.By = rapid.IntRange(0, 2).Draw(t, "taken")
			}
			c.Faults = append(c.Faults, f)
		}
		return c
	}
}

// file is the local file with faults.
type file struct {
	mu     sync.Mutex
	data   []byte
	pos    int64
	short  int
	faults []fault
	ops    map[string]int
	hit    map[string]bool
	guard  vh.Guard
}

const maxOps = 200000

// op counts an operation and says whether it fails.
func (f *file) op(kind string) error {
	n, all := f.ops[kind], f.ops["all"]
	f.ops[kind]++
	f.ops["all"]++
	var err error
	for _, x := range f.faults {
		if x.K == kind && (n == x.At || n > x.At && !x.Once) {
			f.hit[kind] = true
			err = gen.Err(x.Kind)
		}
		if x.K == "shrink" && all == x.At {
			f.hit["shrink"] = true
			f.data = f.data[:max(0, len(f.data)-x.By)]
		}
	}
	return err
}

func (f *file) ReadAt(p []byte, off int64) (int, error) {
	f.guard.Tick(maxOps)
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.op("readat"); err != nil {
		return 0, err
	}
	return bytes.NewReader(f.data).ReadAt(p, off)
}

func (f *file) Read(p []byte) (int, error) {
	f.guard.Tick(maxOps)
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.op("read"); err != nil {
		return 0, err
	}
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	if f.short > 0 && len(p) > f.short {
		p = p[:f.short]
	}
	n := copy(p, f.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *file) Seek(off int64, wh int) (int64, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.op("seek"); err != nil {
		return 0, err
	}
	switch wh {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

type out struct {
	bytes.Buffer
	failAt int
	taken  int // of the failing write: 0: what fits, 1: nothing, 2: all of it
	err    error
	hit    bool
}

func (o *out) Write(p []byte) (int, error) {
	if o.failAt >= 0 && o.Len()+len(p) > o.failAt {
		n := max(0, o.failAt-o.Len())
		if o.taken == 1 {
			n = 0
		} else if o.taken == 2 {
			n = len(p)
		}
		o.Buffer.Write(p[:n])
		o.hit = true
		return n, o.err
	}
	return o.Buffer.Write(p)
}

// covered says whether each byte of a range is in one of the others.
func covered(b [2]int64, by [][2]int64) bool {
	for at := b[0]; at < b[1]; {
		was := at
		for _, g := range by {
			if g[0] <= at && at < g[1] {
				at = g[1]
			}
		}
		if at == was {
			return false
		}
	}
	return true
}

func run(c tc, r *vh.Rec) error {
	ref, local := c.P.Contents()
	sum, err := e2e.Summary(ref, c.P.BS)
	if err != nil {
		return vh.Failf("index of a readable file failed: %v", err)
	}
	var mu sync.Mutex
	srcHit := map[string]bool{}
	var bad, good [][2]int64 // ranges fetched
	used := map[int]bool{}
	req := &e2e.Requester{Data: ref, Delay: c.P.Delay}
	req.Fault = func(n int, start, end int64, right []byte) ([]byte, error) {
		mu.Lock()
		defer mu.Unlock()
		data := append([]byte{}, right...)
		var err error
		var kinds []string
		for i, f := range c.Faults {
			if !(n == f.At || n > f.At && !f.Once) || f.Once && used[i] {
				continue
			}
			was := append([]byte{}, data...)
			switch f.K {
			case "err":
				err = gen.Err(f.Kind)
				srcHit["source error"] = true
				continue
			case "flip", "flip2":
				if len(data) > 0 {
					data[f.By%len(data)] ^= 1 << uint(f.By%8)
				}
				if len(data) > 1 && f.K == "flip2" {
					data[(f.By+1)%len(data)] ^= 1 << uint(f.By%8)
				}
			case "swap": // two blocks change places
				bs := c.P.BS
				if len(data) >= 2*bs {
					x := append([]byte{}, data[:bs]...)
					copy(data, data[len(data)-bs:])
					copy(data[len(data)-bs:], x)
				}
			case "trunc":
				data = data[:max(0, len(data)-f.By)]
			case "empty":
				data = nil
			case "extend":
				data = append(data, gen.Expand(uint64(f.By), f.By)...)
			case "next": // the source ignores the end of the range
				data = append(data, ref[min(int(end), len(ref)):min(int(end)+f.By, len(ref))]...)
			default:
				continue
			}
			if !bytes.Equal(was, data) {
				kinds = append(kinds, "source "+f.K)
				used[i] = true
			}
		}
		if bytes.Equal(data, right) { // faults may undo each other
			if err != nil {
				bad = append(bad, [2]int64{start, end})
			} else {
				good = append(good, [2]int64{start, end})
			}
			return data, err
		}
		for _, k := range kinds {
			srcHit[k] = true
		}
		if err != nil || len(data) != len(right) || c.P.Source == "verified" {
			bad = append(bad, [2]int64{start, end})
		}
		return data, err
	}
	lf := &file{data: local, short: c.P.Short, faults: c.Faults, ops: map[string]int{}, hit: map[string]bool{}}
	o := &out{failAt: -1}
	for _, f := range c.Faults {
		if f.K == "write" {
			o.failAt, o.taken, o.err = f.At*len(ref)/16, f.By, gen.Err(f.Kind)
		}
	}
	src := c.P.NewSource(req, sum)
	err = e2e.Run(c.P, lf, src, sum, o)
	if err == nil && !bytes.Equal(o.Bytes(), ref) {
		return vh.Failf("success with a wrong result after faults %+v: %s", c.Faults, e2e.Diff(o.Bytes(), ref))
	}
	mu.Lock()
	defer mu.Unlock()
	if err == nil && !srcHit["source next"] {
		// the output is right, but every fetch is needed (unless another one
		// supplied its blocks as well), so bad data must have been used
		for _, b := range bad {
			if !covered(b, good) {
				return vh.Failf("success although the source failed: %v for %v, faults %+v", srcHit, b, c.Faults)
			}
		}
	}
	any := false
	for k := range srcHit {
		r.Class(k)
		any = true
	}
	for k := range lf.hit {
		r.Class("local " + k)
		any = true
	}
	if o.hit {
		r.Class("write")
		any = true
	}
	r.ClassIf(err == nil && any, "survived")
	r.ClassIf(err != nil && o.Len() > 0, "failed after some output")
	if err != nil && !any {
		return vh.Failf("failed without any fault taking effect: %v", err)
	}
	if any {
		r.NonTrivial()
	}
	return nil
}

// short source: a plain file that is shorter, longer or failing, as the reference
type sc struct {
	P      e2e.Case `json:"p"`
	Cut    int      `json:"cut,omitempty"`
	FailAt int      `json:"failAt,omitempty"` // n-th operation, 0: never
	Kind   int      `json:"kind,omitempty"`   // of error, gen.Err
	Part   int      `json:"part,omitempty"`   // so many bytes come before the failure
}

func genShort(t *rapid.T) sc {
	c := sc{P: e2e.Gen(t, 1, 24, 200)}
	c.P.Source = "readseeker"
	if rapid.Bool().Draw(t, "cutIt") {
		c.Cut = gen.Pos(t, 60, "cut")
	} else {
		c.FailAt = 1 + rapid.IntRange(0, 6).Draw(t, "failAt")
		c.Kind = gen.ErrKind(t)
		c.Part = gen.Pos(t, 2*c.P.BS, "part")
	}
	return c
}

type failing struct {
	*bytes.Reader
	n, at int
	part  int
	err   error
}

func (f *failing) Read(p []byte) (int, error) {
	if f.n++; f.n == f.at {
		n, _ := f.Reader.Read(p[:min(len(p), f.part)])
		if n == len(p) {
			n-- // else nothing would be missing
		}
		return n, f.err
	}
	return f.Reader.Read(p)
}

func (f *failing) Seek(off int64, wh int) (int64, error) {
	if f.n++; f.n == f.at {
		return 0, f.err
	}
	return f.Reader.Seek(off, wh)
}

func runShort(c sc, r *vh.Rec) error {
	ref, local := c.P.Contents()
	sum, err := e2e.Summary(ref, c.P.BS)
	if err != nil {
		return vh.Failf("index of a readable file failed: %v", err)
	}
	rd := &failing{Reader: bytes.NewReader(ref[:max(0, len(ref)-c.Cut)]), at: c.FailAt, part: c.Part, err: gen.Err(c.Kind)}
	src := e2e.ReadSeekerSource(c.P, rd, sum)
	var o bytes.Buffer
	err = e2e.Run(c.P, &e2e.LocalFile{Reader: bytes.NewReader(local), Short: c.P.Short}, src, sum, &o)
	if err == nil && !bytes.Equal(o.Bytes(), ref) {
		return vh.Failf("success with a wrong result; the source is %d bytes short; %s", c.Cut, e2e.Diff(o.Bytes(), ref))
	}
	hit := c.FailAt > 0 && rd.n >= c.FailAt
	if err != nil && c.Cut == 0 && !hit {
		return vh.Failf("failed without a fault: %v", err)
	}
	r.ClassIf(hit, "source fails")
	r.ClassIf(hit && err == nil, "failure without effect")
	r.ClassIf(err != nil && !hit, "source too short")
	r.ClassIf(err == nil && c.Cut > 0, "missing part not needed")
	if err != nil {
		r.NonTrivial()
	}
	return nil
}

var check = &vh.Check{
	ID: "C02",
	Parts: []*vh.Part{
		vh.NewPart("small", "generated patches (as C01) with one to three faults, transient or lasting: fetches that fail, are corrupted (verified sources), truncated, extended or empty; failing ReadAt, Read and Seek of the local file; a local file that shrinks; output refusing writes; non-trivial: a fault took effect", 5000, 150000, true, genCase(1, 24, 200), run),
		vh.NewPart("large", "as small, up to 12000 bytes", 200, 8000, true, genCase(60, 600, 12000), run),
		vh.NewPart("file source", "a plain file as the source that is too short or fails at the n-th operation; non-trivial: the patch failed", 2500, 60000, true, genShort, runShort),
	},
	Assumptions: []string{
		"without checksums, contents are not corrupted, at most one response has a wrong length (two could make up for each other), and responses are only extended if spans are not split (else the excess can pass for the following blocks)",
		"the local file does not change its content, other than shrinking, while it is patched",
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
