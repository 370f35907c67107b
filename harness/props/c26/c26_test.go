package c26

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sync"
	"testing"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

const mb = 1 << 20

type tc struct {
	How   string `json:"how"`   // write, stream, scan, patch, assemble
	N     int    `json:"n"`     // bytes in the file
	BS    int    `json:"bs"`    // block size
	Conc  int    `json:"conc"`  // matchers
	Batch int    `json:"batch"` // blocks per result
	Seed  uint64 `json:"seed"`
	Step  int    `json:"step"` // how much the reader gives at once; 0 is all that is asked for
	Run   bool   `json:"run"`  // a file of equal bytes
	Miss  int    `json:"miss"` // bytes at the end of the reference that the local file does not have
}

func genCase(minMB, maxMB int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{How: rapid.SampledFrom([]string{"write", "stream", "scan", "patch", "assemble"}).Draw(t, "how")}
		c.N = rapid.IntRange(minMB*mb, maxMB*mb).Draw(t, "n")
		c.Conc = rapid.IntRange(1, 4).Draw(t, "conc")
		c.Batch = rapid.IntRange(1, 40).Draw(t, "batch")
		c.Seed = rapid.Uint64Range(0, 1<<20).Draw(t, "seed")
		c.Step = rapid.SampledFrom([]int{0, 0, 4096, 100003}).Draw(t, "step")
		switch c.How {
		case "write", "stream":
			c.BS = rapid.SampledFrom([]int{64, 100, 1000, 8192, 65536, 1000000}).Draw(t, "bs")
			c.Run = rapid.Bool().Draw(t, "run")
		case "scan":
			c.BS = rapid.SampledFrom([]int{64, 500, 8192, 200000}).Draw(t, "bs")
			c.Run = c.BS <= 8192 && rapid.Bool().Draw(t, "run") // zeros match the weak checksum at any length
			c.N = c.N / 3 * 2
		default:
			c.BS = rapid.SampledFrom([]int{40000, 65536, 300000}).Draw(t, "bs")
			c.Miss = rapid.IntRange(0, mb).Draw(t, "miss")
		}
		return c
	}
}

// table is the content of all files: they repeat it. Its length is a prime.
var table = sync.OnceValue(func() []byte { return gen.Expand(424242, 1048573) })

// file is a large file that takes no memory and measures the memory in use while
// it is read.
type file struct {
	c   tc
	n   int64
	m   *meter
	pos int64
}

func (f *file) ReadAt(p []byte, off int64) (int, error) {
	if off >= f.n {
		return 0, io.EOF
	}
	want := len(p)
	if f.c.Step > 0 && len(p) > f.c.Step && f.c.How != "patch" {
		p = p[:f.c.Step]
	}
	p = p[:min(int64(len(p)), f.n-off)]
	if f.c.Run {
		clear(p)
	} else {
		t := table()
		for done := 0; done < len(p); {
			done += copy(p[done:], t[(off+int64(done)+int64(f.c.Seed))%int64(len(t)):])
		}
	}
	f.m.moved(len(p))
	if len(p) < want && off+int64(len(p)) == f.n {
		return len(p), io.EOF
	}
	return len(p), nil
}

func (f *file) Read(p []byte) (int, error) {
	n, err := f.ReadAt(p, f.pos)
	f.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (f *file) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = off
	case io.SeekCurrent:
		f.pos += off
	case io.SeekEnd:
		f.pos = f.n + off
	}
	return f.pos, nil
}

// meter looks at the memory that is in use every few megabytes of data.
type meter struct {
	mu    sync.Mutex
	every int
	since int
	base  uint64
	most  uint64
	looks int
}

func newMeter(every int) *meter {
	table()
	m := &meter{every: every}
	m.base = live()
	return m
}

func live() uint64 {
	var s runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&s)
	return s.HeapAlloc
}

func (m *meter) moved(n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.since += n; m.since < m.every {
		return
	}
	m.since = 0
	m.looks++
	if now := live(); now > m.base {
		m.most = max(m.most, now-m.base)
	}
}

// counted counts and measures what is written to it.
type counted struct {
	m *meter
	n int64
}

func (w *counted) Write(p []byte) (int, error) {
	w.n += int64(len(p))
	if w.m != nil {
		w.m.moved(len(p))
	}
	return len(p), nil
}

func run(c tc, r *vh.Rec) error {
	// what may be in use: buffers of the matchers and some blocks
	allowed := uint64(4*mb + c.Conc*(3*mb/2+6*c.BS) + 3*c.Miss)
	if c.How != "patch" {
		allowed = uint64(6*mb + 6*c.BS + 3*c.Miss)
	}
	every := c.N / 6
	entries := (c.N + c.BS - 1) / c.BS
	var m *meter
	switch c.How {
	case "write":
		m = newMeter(every)
		out := &counted{}
		if _, err := filechecksum.NewFileChecksumGenerator(uint(c.BS)).GenerateChecksums(&file{c: c, n: int64(c.N), m: m}, out); err != nil {
			return vh.Failf("GenerateChecksums: %v", err)
		}
		if out.n != int64(entries*20) {
			return vh.Failf("%d bytes of checksums for %d blocks", out.n, entries)
		}
	case "stream":
		m = newMeter(every)
		got := 0
		for res := range filechecksum.NewFileChecksumGenerator(uint(c.BS)).StartChecksumGeneration(&file{c: c, n: int64(c.N), m: m}, uint(c.Batch), nil) {
			if res.Err != nil {
				return vh.Failf("StartChecksumGeneration: %v", res.Err)
			}
			got += len(res.Checksums)
		}
		if got != entries {
			return vh.Failf("%d of %d blocks", got, entries)
		}
	case "scan":
		// a few blocks of the file itself, far apart
		var list []chunks.ChunkChecksum
		t := &file{c: c, n: int64(c.N), m: newMeter(1 << 60)}
		for i := 0; i < 3; i++ {
			b := make([]byte, c.BS)
			io.ReadFull(io.NewSectionReader(t, int64(c.N)/7*int64(i+1), int64(c.BS)), b)
			g := filechecksum.NewFileChecksumGenerator(uint(c.BS))
			var sums bytes.Buffer
			g.GenerateChecksums(bytes.NewReader(b), &sums)
			l, err := chunks.LoadChecksumsFromReader(&sums, 4, 16)
			if err != nil || len(l) != 1 {
				return vh.Failf("checksums of a block: %v", err)
			}
			l[0].ChunkOffset = uint(i)
			list = append(list, l[0])
		}
		ix := index.MakeChecksumIndex(list)
		m = newMeter(every)
		cmp := &comparer.Comparer{}
		n := 0
		for res := range cmp.StartFindMatchingBlocks(&file{c: c, n: int64(c.N), m: m}, 0, filechecksum.NewFileChecksumGenerator(uint(c.BS)), ix) {
			if res.Err != nil {
				return vh.Failf("scanning: %v", res.Err)
			}
			n++
		}
		if n == 0 {
			return vh.Failf("nothing was found")
		}
		r.ClassIf(n > 1000, "many matches")
	case "patch":
		ref := &file{c: c, n: int64(c.N), m: newMeter(1 << 60)}
		var sums bytes.Buffer
		if _, err := filechecksum.NewFileChecksumGenerator(uint(c.BS)).GenerateChecksums(ref, &sums); err != nil {
			return vh.Failf("GenerateChecksums: %v", err)
		}
		list, err := chunks.LoadChecksumsFromReader(&sums, 4, 16)
		if err != nil || len(list) != entries {
			return vh.Failf("%d entries for %d blocks (%v)", len(list), entries, err)
		}
		sum := &gosync.BasicSummary{BlockSize: uint(c.BS), BlockCount: uint(entries), FileSize: int64(c.N), ChecksumIndex: index.MakeChecksumIndex(list), ChecksumLookup: chunks.StrongChecksumGetter(list)}
		m = newMeter(every)
		old := gosync.DefaultConcurrency
		gosync.DefaultConcurrency = c.Conc
		out := &counted{m: m}
		src := blocksources.NewReadSeekerBlockSource(&file{c: c, n: int64(c.N), m: m}, blocksources.MakeFileSizedBlockResolver(uint64(c.BS), int64(c.N)))
		rs := &gosync.RSync{Input: &file{c: c, n: int64(c.N - c.Miss), m: m}, Output: out, Source: src, Summary: sum}
		err = rs.Patch()
		src.Close()
		gosync.DefaultConcurrency = old
		if err != nil || out.n != int64(c.N) {
			return vh.Failf("patching: %v, %d of %d bytes", err, out.n, c.N)
		}
	case "assemble":
		cut := (c.N - c.Miss) / c.BS // blocks in the local file
		if cut == 0 {
			return nil
		}
		m = newMeter(every)
		out := &counted{m: m}
		src := blocksources.NewReadSeekerBlockSource(&file{c: c, n: int64(c.N), m: m}, blocksources.MakeFileSizedBlockResolver(uint64(c.BS), int64(c.N)))
		var missing []patcher.MissingBlockSpan
		if cut < entries {
			missing = append(missing, patcher.MissingBlockSpan{BlockSize: int64(c.BS), StartBlock: uint(cut), EndBlock: uint(entries - 1)})
		}
		err := sequential.SequentialPatcher(&file{c: c, n: int64(c.N), m: m}, src, missing,
			[]patcher.FoundBlockSpan{{BlockSize: int64(c.BS), StartBlock: 0, EndBlock: uint(cut - 1), MatchOffset: 0}}, 20*mb, out)
		src.Close()
		if err != nil || out.n != int64(c.N) {
			return vh.Failf("assembling: %v, %d of %d bytes", err, out.n, c.N)
		}
	default:
		panic(fmt.Sprint("how ", c.How))
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.most > allowed {
		return vh.Failf("%s of %d bytes (block size %d, %d matchers) keeps %d bytes in memory, %d are allowed", c.How, c.N, c.BS, c.Conc, m.most, allowed)
	}
	r.Class(c.How)
	r.ClassIf(m.most < allowed/2, "less than half of what is allowed")
	r.ClassIf(m.most < allowed/8, "less than an eighth of what is allowed")
	if m.looks > 0 && uint64(c.N) > allowed*5/4 {
		r.NonTrivial()
	}
	return nil
}

const rule = "a virtual file (repeated noise or equal bytes, read in generated pieces) is indexed, scanned, patched from or assembled with generated block sizes, batches, matchers and missing ends, and the live heap is measured after a garbage collection at several points within"

var check = &vh.Check{
	ID: "C26",
	Parts: []*vh.Part{
		vh.NewPart("streams", rule+"; non-trivial: the file is larger than the memory allowed by a quarter or more", 25, 1000, false, genCase(24, 48), run),
		vh.NewPart("fetched", "a patch set up by MakeRSync fetches most of a file from a path or from a loopback server that may be late at times; the live heap is measured when fetched blocks are verified; non-trivial: what is fetched is larger than the memory allowed by a quarter or more", 6, 150, false, genFetched(48, 72), runFetched),
		vh.NewPart("commands", "the tool builds, compares and patches files of 110 to 140 MB, and the largest amount of memory that the system counts for each process is bounded; non-trivial: the file is larger than what is allowed by an eighth or more", 4, 100, false, genCommand(110, 140), runCommand),
	},
	Shards: 6,
	Procs:  2,
	Assumptions: []string{
		"allowed are 6 MiB and 6 blocks, or for a patch 4 MiB and per matcher 1.5 MiB and 6 blocks, and three times what is missing; a fetch is one request, so what is missing at one place is in memory",
		"the index and the list of found spans are in memory by design and small here",
	},
	CaseCPU: 300,
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
