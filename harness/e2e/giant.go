package e2e

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"sync"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

// Giant is a patch with a local or a reference file beyond 2 or 4 GiB, most of
// which is equal bytes.
type Giant struct {
	BS      int     `json:"bs"`
	Local   bool    `json:"local"` // the local file is the large one
	N       int64   `json:"n"`     // size of the large file
	Other   int     `json:"other"` // blocks of the other file
	Tail    int     `json:"tail"`  // bytes of a short last block of the reference
	Seed    uint64  `json:"seed"`
	At      []int64 `json:"at"`   // where the large file has something else, in bytes (local) or blocks
	Have    int     `json:"have"` // which of the pieces the other one has too
	Conc    int     `json:"conc"`
	SrcConc int     `json:"srcconc"`
	Split   int     `json:"split"`
}

// GenGiant draws a patch with a large local file, or with either.
func GenGiant(t *rapid.T, local bool) Giant {
	c := Giant{Local: local || rapid.Bool().Draw(t, "large local file")}
	c.BS = 1<<20 + gen.Pos(t, 1<<20, "bs")
	c.N = rapid.SampledFrom([]int64{1<<31 + 1<<25, 1<<32 + 1<<25, 1<<32 + 1<<28, 1<<32 + 1<<28}).Draw(t, "n")
	c.N += int64(gen.Pos(t, 1<<24, "more"))
	c.Seed = rapid.Uint64Range(0, 1<<20).Draw(t, "seed")
	c.Conc = rapid.SampledFrom([]int{1, 2, 3, 8, 24, 40, 64}).Draw(t, "conc")
	c.SrcConc = rapid.IntRange(1, 3).Draw(t, "srcConc")
	c.Have = rapid.IntRange(0, 63).Draw(t, "have")
	if rapid.Bool().Draw(t, "tail?") {
		c.Tail = 1 + gen.Pos(t, c.BS-2, "tail")
	}
	if rapid.Bool().Draw(t, "split?") {
		c.Split = c.BS * rapid.IntRange(1, 3).Draw(t, "split")
	}
	top := c.N
	if !c.Local {
		top = c.N / int64(c.BS)
	}
	for i, k := 0, rapid.IntRange(1, 6).Draw(t, "pieces"); i < k; i++ {
		var p int64
		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 0:
			p = rapid.Int64Range(0, top).Draw(t, "at")
		case 1: // around a power of two
			p = (c.N >> 31 << 31) + rapid.Int64Range(-2*int64(c.BS), 2*int64(c.BS)).Draw(t, "near")
			if !c.Local {
				p /= int64(c.BS)
			}
		default: // in the last 32 MiB
			p = top - rapid.Int64Range(0, 1<<25).Draw(t, "back")
			if !c.Local {
				p = top - rapid.Int64Range(0, 1<<25/int64(c.BS)).Draw(t, "back")
			}
		}
		c.At = append(c.At, max(0, p))
	}
	if c.Local { // one that is there in any case
		last := c.N - int64(c.BS) - int64(gen.Pos(t, 2000, "last"))
		for i := range c.At {
			c.At[i] = min(c.At[i], last-int64(len(c.At)-i)*int64(c.BS))
		}
		c.At = append(c.At, last)
		c.Have |= 1 << (len(c.At) - 1)
	}
	return c
}

// Zeros would have the weak checksum zero at any length, so that each window at the
// end of a section would be compared.
var fill = bytes.Repeat([]byte{0x5b}, 1<<20)

type chunk struct {
	off  int64
	data []byte
}

// sparse is a virtual file of equal bytes with some chunks.
type sparse struct {
	n      int64
	chunks []chunk // sorted, disjoint
	pos    int64
	mu     sync.Mutex
	spans  []Span // requested
}

func (f *sparse) ReadAt(p []byte, off int64) (int, error) {
	if off >= f.n {
		return 0, io.EOF
	}
	want := len(p)
	p = p[:min(int64(len(p)), f.n-off)]
	for done := 0; done < len(p); {
		done += copy(p[done:], fill)
	}
	end := off + int64(len(p))
	for _, c := range f.chunks {
		if c.off < end && c.off+int64(len(c.data)) > off {
			if c.off >= off {
				copy(p[c.off-off:], c.data)
			} else {
				copy(p, c.data[off-c.off:])
			}
		}
	}
	if len(p) < want {
		return len(p), io.EOF
	}
	return len(p), nil
}

func (f *sparse) Read(p []byte) (int, error) {
	n, err := f.ReadAt(p, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *sparse) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.n
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position %d", off)
	}
	f.pos = off
	return off, nil
}

func (f *sparse) DoRequest(start, end int64) ([]byte, error) {
	if start < 0 || end < start || end > f.n || end-start > 1<<28 {
		return nil, fmt.Errorf("bytes %d to %d of a file of %d bytes", start, end, f.n)
	}
	f.mu.Lock()
	f.spans = append(f.spans, Span{start, end})
	f.mu.Unlock()
	b := make([]byte, end-start)
	_, err := f.ReadAt(b, start)
	if err == io.EOF {
		err = nil
	}
	return b, err
}

func (f *sparse) IsFatal(error) bool { return true }

// compare checks what is written to it.
type compare struct {
	want *sparse
	n    int64
	bad  string
	buf  []byte
}

func (w *compare) Write(p []byte) (int, error) {
	if w.bad != "" {
		return len(p), nil
	}
	if w.n+int64(len(p)) > w.want.n {
		w.bad = fmt.Sprintf("more than %d bytes", w.want.n)
		return len(p), nil
	}
	if cap(w.buf) < len(p) {
		w.buf = make([]byte, len(p))
	}
	b := w.buf[:len(p)]
	w.want.ReadAt(b, w.n)
	if !bytes.Equal(b, p) {
		i := 0
		for b[i] == p[i] {
			i++
		}
		w.bad = fmt.Sprintf("byte %d is %d instead of %d", w.n+int64(i), p[i], b[i])
	}
	w.n += int64(len(p))
	return len(p), nil
}

// RunGiant patches, compares the output with the reference and what was requested
// (if wanted) with what the local file has.
func RunGiant(c Giant, requests bool, r *vh.Rec) error {
	bs := int64(c.BS)
	block := func(i int) []byte { return gen.Expand(c.Seed*64+uint64(i)+1, c.BS) }
	ref, local := &sparse{}, &sparse{}
	at := append([]int64{}, c.At...)
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	if c.Local {
		// the reference: an equal block and one of each piece
		local.n = c.N
		ref.n = bs * int64(len(at)+1)
		end := int64(0)
		for i, p := range at {
			d := block(i)
			ref.chunks = append(ref.chunks, chunk{bs * int64(i+1), d})
			if p = max(p, end); c.Have>>i&1 == 1 && p+bs <= local.n {
				local.chunks = append(local.chunks, chunk{p, d})
				end = p + bs
			}
		}
	} else {
		// the local file: an equal block and some of the pieces
		ref.n = c.N / bs * bs
		last := int64(-1)
		for i, p := range at {
			if p = max(p, last+1); (p+1)*bs > ref.n {
				break
			}
			d := block(i)
			ref.chunks = append(ref.chunks, chunk{p * bs, d})
			last = p
			if c.Have>>i&1 == 1 {
				local.chunks = append(local.chunks, chunk{bs + local.n, d})
				local.n += bs
			}
		}
		local.n += bs
	}
	if c.Tail > 0 {
		d := block(63)[:c.Tail]
		ref.chunks = append(ref.chunks, chunk{ref.n, d})
		ref.n += int64(c.Tail)
		if c.Have>>5&1 == 1 {
			local.chunks = append(local.chunks, chunk{local.n, d})
			local.n += int64(c.Tail)
		}
	}

	// the index; most blocks are equal
	blocks := int((ref.n + bs - 1) / bs)
	list := make([]chunks.ChunkChecksum, blocks)
	buf := make([]byte, bs)
	other := map[int64]bool{}
	for _, p := range ref.chunks {
		other[p.off/bs] = true
	}
	copy(buf, bytes.Repeat(fill, 1+c.BS>>20))
	zw, zs := oracle.Weak(buf), oracle.MD5(buf)
	for i := range list {
		w, s := zw, zs
		if b := int64(i); other[b] {
			n, _ := ref.ReadAt(buf, b*bs)
			w, s = oracle.Weak(buf[:n]), oracle.MD5(buf[:n])
		}
		list[i] = chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: w, StrongChecksum: s}
	}
	sum := &gosync.BasicSummary{
		BlockSize: uint(bs), BlockCount: uint(blocks), FileSize: ref.n,
		ChecksumIndex: index.MakeChecksumIndex(list), ChecksumLookup: chunks.StrongChecksumGetter(list),
	}
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: ref.n, MaxDesiredRequestSize: uint64(c.Split)}
	req := &sparse{n: ref.n, chunks: ref.chunks}
	src := blocksources.NewBlockSourceBase(req, res,
		&filechecksum.HashVerifier{Hash: filechecksum.DefaultStrongHashGenerator(), BlockSize: uint(bs), BlockChecksumGetter: sum}, c.SrcConc, 1<<20)
	defer src.Close()
	out := &compare{want: ref}
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = c.Conc
	defer func() { gosync.DefaultConcurrency = old }()
	err := (&gosync.RSync{Input: local, Source: src, Output: out, Summary: sum}).Patch()
	if err != nil {
		return vh.Failf("patching failed: %v (reference of %d bytes, local file of %d)", err, ref.n, local.n)
	}
	if out.bad != "" || out.n != ref.n {
		return vh.Failf("output is not the reference: %d of %d bytes, %s (local file of %d bytes)", out.n, ref.n, out.bad, local.n)
	}
	for _, l := range local.chunks {
		for _, p := range ref.chunks {
			if &l.data[0] != &p.data[0] {
				continue
			}
			for _, s := range req.spans {
				if requests && s.From < p.off+bs && p.off < s.To {
					return vh.Failf("block %d is requested although the local file (%d bytes) has it at offset %d, with %d matchers", p.off/bs, local.n, l.off, c.Conc)
				}
			}
			r.ClassIf(l.off > 1<<32, "copied from beyond 4 GiB")
		}
	}
	r.ClassIf(c.Local, "large local file")
	r.ClassIf(!c.Local, "large reference")
	r.ClassIf(c.N > 1<<32, "more than 4 GiB")
	r.ClassIf(len(req.spans) > 0, "something requested")
	if c.N > 1<<32 {
		r.NonTrivial()
	}
	return nil
}
