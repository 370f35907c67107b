// Package e2e drives whole patches through the public API of the library.
package e2e

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha512"
	"fmt"
	"hash"
	"io"
	"sync"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"github.com/Redundancy/go-sync/patcher"
	"pgregory.net/rapid"
	"verif/gen"
)

// Summary builds the index of ref.
func Summary(ref []byte, bs int) (*gosync.BasicSummary, error) {
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	_, idx, lookup, err := indexbuilder.BuildChecksumIndex(g, bytes.NewReader(ref))
	if err != nil {
		return nil, fmt.Errorf("building the index of a %d byte reference at block size %d: %v", len(ref), bs, err)
	}
	return &gosync.BasicSummary{
		BlockSize:      uint(bs),
		BlockCount:     uint((len(ref) + bs - 1) / bs),
		FileSize:       int64(len(ref)),
		ChecksumIndex:  idx,
		ChecksumLookup: lookup,
	}, nil
}

// Span is a byte range that was fetched.
type Span struct{ From, To int64 }

// Requester serves byte ranges of Data, after a virtual delay, and records them.
type Requester struct {
	Data  []byte
	Delay []int                                                      // milliseconds of (virtual) time per fetch, cycled
	Fault func(n int, start, end int64, good []byte) ([]byte, error) // n-th fetch
	mu    sync.Mutex
	Spans []Span
	n     int
}

func (r *Requester) DoRequest(start, end int64) ([]byte, error) {
	r.mu.Lock()
	n := r.n
	r.n++
	r.Spans = append(r.Spans, Span{start, end})
	r.mu.Unlock()
	if len(r.Delay) > 0 {
		if d := r.Delay[n%len(r.Delay)]; d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
	}
	l := int64(len(r.Data))
	a, b := min(max(start, 0), l), min(max(end, 0), l)
	if b < a {
		b = a
	}
	good := append([]byte{}, r.Data[a:b]...)
	if r.Fault != nil {
		return r.Fault(n, start, end, good)
	}
	return good, nil
}

func (r *Requester) IsFatal(error) bool { return true }

// Fetched returns the recorded ranges.
func (r *Requester) Fetched() []Span {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]Span{}, r.Spans...)
}

// Case is one generated patch.
type Case struct {
	BS    int       `json:"bs"`
	Conc  int       `json:"conc"`
	Ref   []gen.Seg `json:"ref"`
	Local []gen.Seg `json:"local"`

	Source  string `json:"source"` // "readseeker", "base", "verified"
	SrcConc int    `json:"srcconc,omitempty"`
	Split   int    `json:"split,omitempty"` // MaxDesiredRequestSize
	Delay   []int  `json:"delay,omitempty"`
	Sum     string `json:"sum,omitempty"`   // default strong checksum (WithSum)
	Short   int    `json:"short,omitempty"` // local Read returns at most this many bytes
}

// Sums are the names of the strong checksums for WithSum.
var Sums = []string{"", "", "", "sha1", "sha512"}

// WithSum makes another strong checksum the default one of the library until
// the returned function is called.
func WithSum(name string) (restore func()) {
	old := filechecksum.DefaultStrongHashGenerator
	f, ok := map[string]func() hash.Hash{"": old, "md5": md5.New, "sha1": sha1.New, "sha512": sha512.New}[name]
	if !ok {
		panic("no checksum " + name)
	}
	filechecksum.DefaultStrongHashGenerator = f
	return func() { filechecksum.DefaultStrongHashGenerator = old }
}

// Gen draws a patch. Content is at most maxLen bytes long.
func Gen(t *rapid.T, minBS, maxBS, maxLen int) Case {
	c := Case{}
	c.BS = gen.BlockSize(t, minBS, maxBS)
	c.Conc = rapid.SampledFrom([]int{1, 1, 2, 3, 4, 5, 7, 9}).Draw(t, "matchers")
	if rapid.IntRange(0, 60).Draw(t, "manyMatchers") == 0 {
		c.Conc = rapid.SampledFrom([]int{17, 33, 70, 150}).Draw(t, "many")
	}
	c.Ref = gen.Content(t, c.BS, maxLen)
	ref := gen.Build(c.Ref, nil)
	c.Local = gen.Edited(t, c.BS, len(ref), maxLen)
	c.Source = rapid.SampledFrom([]string{"readseeker", "base", "verified"}).Draw(t, "source")
	if c.Source != "readseeker" {
		c.SrcConc = rapid.IntRange(1, 4).Draw(t, "srcConc")
		if rapid.Bool().Draw(t, "delays") {
			c.Delay = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "delay")
			// a source that takes minutes is slow, but works
			if rapid.IntRange(0, 4).Draw(t, "slow") == 0 {
				for i := range c.Delay {
					c.Delay[i] *= 300000
				}
			}
		}
	}
	if rapid.Bool().Draw(t, "splitReq") {
		c.Split = rapid.IntRange(1, 4*c.BS).Draw(t, "split")
	}
	if rapid.IntRange(0, 3).Draw(t, "shortReads") == 0 {
		c.Short = rapid.IntRange(1, 2*c.BS).Draw(t, "short")
	}
	return c
}

// GenHuge draws a patch with block sizes or block numbers beyond 16 bits.
func GenHuge(t *rapid.T) Case {
	c := Gen(t, 1, 24, 200)
	if rapid.Bool().Draw(t, "manyBlocks") {
		// random content: repeated blocks would all match each other
		c.BS = rapid.IntRange(4, 6).Draw(t, "bs")
		n := 65536*c.BS + rapid.IntRange(-4*c.BS, 6*c.BS).Draw(t, "n")
		c.Ref = []gen.Seg{{K: "rnd", N: n, V: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}}
		c.Local = gen.Edited(t, c.BS, n, 3000)
		if c.Split > 0 {
			c.Split *= 1000 * c.BS
		}
	} else {
		c.BS = rapid.SampledFrom([]int{65535, 65536, 65537, 70001, 131072}).Draw(t, "bs")
		c.Ref = gen.Content(t, c.BS, 5*c.BS)
		if rapid.Bool().Draw(t, "more") {
			c.Ref = append(c.Ref, gen.Seg{K: "rnd", N: gen.Pos(t, 3*c.BS, "n"), V: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")})
		}
		c.Local = gen.Edited(t, c.BS, len(gen.Build(c.Ref, nil)), 5*c.BS)
		if c.Split > 0 {
			c.Split = gen.Pos(t, 4*c.BS, "split")
		}
	}
	if c.Short > 0 {
		c.Short *= 1000
	}
	return c
}

// Contents expands the case.
func (c Case) Contents() (ref, local []byte) {
	ref = gen.Build(c.Ref, nil)
	return ref, gen.Build(c.Local, ref)
}

// NewSource makes the block source of the case over req (nil: a ReadSeeker).
func (c Case) NewSource(req *Requester, sum *gosync.BasicSummary) *blocksources.BlockSourceBase {
	res := c.resolver(sum)
	switch c.Source {
	case "readseeker":
		return blocksources.NewReadSeekerBlockSource(bytes.NewReader(req.Data), res)
	case "base":
		return blocksources.NewBlockSourceBase(req, res, nil, c.SrcConc, 1<<20)
	case "verified":
		v := &filechecksum.HashVerifier{
			Hash: filechecksum.DefaultStrongHashGenerator(), BlockSize: uint(c.BS), BlockChecksumGetter: sum,
		}
		return blocksources.NewBlockSourceBase(req, res, v, c.SrcConc, 1<<20)
	}
	panic("source " + c.Source)
}

func (c Case) resolver(sum *gosync.BasicSummary) blocksources.BlockSourceOffsetResolver {
	return &blocksources.FixedSizeBlockResolver{
		BlockSize:             uint64(c.BS),
		FileSize:              sum.FileSize,
		MaxDesiredRequestSize: uint64(c.Split),
	}
}

// ReadSeekerSource makes a source over any reader.
func ReadSeekerSource(c Case, rs io.ReadSeeker, sum *gosync.BasicSummary) *blocksources.BlockSourceBase {
	return blocksources.NewReadSeekerBlockSource(rs, c.resolver(sum))
}

// LocalFile is a ReadSeekerAt with optional short reads and faults.
type LocalFile struct {
	*bytes.Reader
	Short int
	// faults, all optional
	OnRead   func() error
	OnReadAt func(off int64, n int) error
	OnSeek   func() error
}

func (l *LocalFile) Read(p []byte) (int, error) {
	if l.OnRead != nil {
		if err := l.OnRead(); err != nil {
			return 0, err
		}
	}
	if l.Short > 0 && len(p) > l.Short {
		p = p[:l.Short]
	}
	return l.Reader.Read(p)
}

func (l *LocalFile) ReadAt(p []byte, off int64) (int, error) {
	if l.OnReadAt != nil {
		if err := l.OnReadAt(off, len(p)); err != nil {
			return 0, err
		}
	}
	return l.Reader.ReadAt(p, off)
}

func (l *LocalFile) Seek(off int64, wh int) (int64, error) {
	if l.OnSeek != nil {
		if err := l.OnSeek(); err != nil {
			return 0, err
		}
	}
	return l.Reader.Seek(off, wh)
}

var _ io.ReadSeeker = (*LocalFile)(nil)

// Run patches and returns the output.
func Run(c Case, local gosync.ReadSeekerAt, src patcher.BlockSource, sum gosync.FileSummary, out io.Writer) error {
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = c.Conc
	defer func() { gosync.DefaultConcurrency = old }()
	r := &gosync.RSync{Input: local, Source: src, Output: out, Summary: sum}
	return r.Patch()
}

// Blocks returns block i of data.
func Block(data []byte, bs, i int) []byte {
	a := min(i*bs, len(data))
	return data[a:min(a+bs, len(data))]
}

// Show shortens bytes for messages.
func Show(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q... (%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Diff describes the first difference.
func Diff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return "equal"
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d, first difference at offset %d; got %s want %s",
		len(got), len(want), i, Show(got[max(0, i-8):]), Show(want[min(len(want), max(0, i-8)):]))
}
