package c23

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"github.com/Redundancy/go-sync/patcher"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

// ---- whole patches, several at once sharing one index

type patchCase struct {
	P      e2e.Case `json:"p"`
	Twins  int      `json:"twins"`  // patches at the same time with the same index
	Watch  bool     `json:"watch"`  // somebody reads the byte count meanwhile
	Faulty bool     `json:"faulty"` // the source fails at some point
	At     int      `json:"at"`
}

func genPatch(t *rapid.T) patchCase {
	c := patchCase{P: e2e.Gen(t, 2, 32, 500)}
	for i := range c.P.Delay {
		c.P.Delay[i] %= 300 // somebody reads the byte count each millisecond
	}
	c.P.Conc = rapid.IntRange(2, 9).Draw(t, "matchers2")
	c.Twins = rapid.IntRange(1, 3).Draw(t, "twins")
	c.Watch = rapid.Bool().Draw(t, "watch")
	c.Faulty = c.P.Source != "readseeker" && rapid.IntRange(0, 2).Draw(t, "faulty") == 0
	c.At = rapid.IntRange(0, 5).Draw(t, "at")
	return c
}

func runPatch(c patchCase, r *vh.Rec) error {
	ref, local := c.P.Contents()
	sum, err := e2e.Summary(ref, c.P.BS)
	if err != nil {
		return vh.Failf("%v", err)
	}
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = c.P.Conc
	defer func() { gosync.DefaultConcurrency = old }()
	errs := make([]error, c.Twins)
	fetches := make([]int, c.Twins)
	var wg sync.WaitGroup
	for i := 0; i < c.Twins; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			req := &e2e.Requester{Data: ref, Delay: c.P.Delay}
			if c.Faulty {
				req.Fault = func(n int, _, _ int64, good []byte) ([]byte, error) {
					if n >= c.At {
						return nil, gen.ErrInjected
					}
					return good, nil
				}
			}
			src := c.P.NewSource(req, sum)
			stop := make(chan struct{})
			var watcher sync.WaitGroup
			if c.Watch {
				watcher.Add(1)
				go func() {
					defer watcher.Done()
					last := int64(0)
					for {
						select {
						case <-stop:
							return
						default:
						}
						n := src.ReadBytes()
						if n < last {
							errs[i] = vh.Failf("the byte count went from %d to %d", last, n)
							return
						}
						last = n
						time.Sleep(time.Millisecond)
					}
				}()
			}
			var out bytes.Buffer
			rs := &gosync.RSync{Input: &e2e.LocalFile{Reader: bytes.NewReader(local), Short: c.P.Short}, Source: src, Output: &out, Summary: sum}
			perr := rs.Patch()
			close(stop)
			watcher.Wait()
			fetches[i] = len(req.Fetched())
			switch {
			case errs[i] != nil:
			case perr != nil && !(c.Faulty && fetches[i] > c.At):
				errs[i] = vh.Failf("patching failed: %v", perr)
			case perr == nil && !bytes.Equal(out.Bytes(), ref):
				errs[i] = vh.Failf("output is not the reference: %s", e2e.Diff(out.Bytes(), ref))
			}
			src.Close()
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	r.ClassIf(c.Twins > 1, "patches sharing an index")
	r.ClassIf(fetches[0] > 1, "several fetches")
	if len(ref) > c.P.BS && len(local) > 2*c.P.BS {
		r.NonTrivial()
	}
	return nil
}

// ---- one comparer used by several goroutines

type cmpCase struct {
	BS      int         `json:"bs"`
	Ref     []gen.Seg   `json:"ref"`
	Streams [][]gen.Seg `json:"streams"`
}

func genCmp(t *rapid.T) cmpCase {
	c := cmpCase{BS: gen.BlockSize(t, 1, 24)}
	c.Ref = gen.Content(t, c.BS, 300)
	n := len(gen.Build(c.Ref, nil))
	for i, k := 0, rapid.IntRange(2, 5).Draw(t, "streams"); i < k; i++ {
		c.Streams = append(c.Streams, gen.Edited(t, c.BS, n, 300))
	}
	return c
}

type match struct {
	off int64
	id  uint
}

func runCmp(c cmpCase, r *vh.Rec) error {
	ref := gen.Build(c.Ref, nil)
	sum, err := e2e.Summary(ref, c.BS)
	if err != nil {
		return vh.Failf("%v", err)
	}
	scan := func(cmp *comparer.Comparer, stream []byte) (out []match) {
		g := filechecksum.NewFileChecksumGenerator(uint(c.BS))
		for m := range cmp.StartFindMatchingBlocks(bytes.NewReader(stream), 0, g, sum) {
			if m.Err == nil {
				out = append(out, match{m.ComparisonOffset, m.BlockIdx})
			}
		}
		sort.Slice(out, func(i, j int) bool {
			return out[i].off < out[j].off || out[i].off == out[j].off && out[i].id < out[j].id
		})
		return
	}
	var want [][]match
	alone := &comparer.Comparer{}
	for _, s := range c.Streams {
		want = append(want, scan(alone, gen.Build(s, ref)))
	}
	shared := &comparer.Comparer{}
	got := make([][]match, len(c.Streams))
	var wg sync.WaitGroup
	for i, s := range c.Streams {
		stream := gen.Build(s, ref)
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = scan(shared, stream)
		}()
	}
	// the counters are read while the scans run, as a progress display would
	for i := 0; i < 3; i++ {
		_ = atomic.LoadInt64(&shared.Comparisons) + atomic.LoadInt64(&shared.WeakHashHits) + atomic.LoadInt64(&shared.StrongHashHits)
	}
	wg.Wait()
	total := 0
	for i := range want {
		if fmt.Sprint(want[i]) != fmt.Sprint(got[i]) {
			return vh.Failf("stream %d: sharing a comparer changes the matches from %v to %v", i, want[i], got[i])
		}
		total += len(want[i])
	}
	if *shared != *alone {
		return vh.Failf("counters of the shared comparer %+v, of sequential use %+v", *shared, *alone)
	}
	if total > 0 {
		r.NonTrivial()
	}
	return nil
}

// ---- one merger fed by several goroutines

type mergeCase struct {
	BS    int64      `json:"bs"`
	Feeds [][][2]int `json:"feeds"` // per stream: block, offset base
	Err   []bool     `json:"err"`
}

func genMerge(t *rapid.T) mergeCase {
	c := mergeCase{BS: rapid.Int64Range(1, 9).Draw(t, "bs")}
	n := rapid.IntRange(1, 40).Draw(t, "blocks")
	for i, k := 0, rapid.IntRange(2, 6).Draw(t, "streams"); i < k; i++ {
		c.Feeds = append(c.Feeds, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) [2]int {
			return [2]int{rapid.IntRange(0, n-1).Draw(t, "id"), rapid.SampledFrom([]int{0, 0, 0, 100}).Draw(t, "base")}
		}), 0, 30).Draw(t, "feed"))
		c.Err = append(c.Err, rapid.IntRange(0, 3).Draw(t, "err") == 0)
	}
	return c
}

func runMerge(c mergeCase, r *vh.Rec) error {
	m := &comparer.MatchMerger{}
	ids := map[uint]map[int64]bool{}
	n := 0
	unique := true
	for i, f := range c.Feeds {
		ch := make(chan comparer.BlockMatchResult, i%3)
		m.StartMergeResultStream(ch, c.BS)
		for _, x := range f {
			o := int64(x[1]) + int64(x[0])*c.BS
			if ids[uint(x[0])] == nil {
				ids[uint(x[0])] = map[int64]bool{}
			}
			ids[uint(x[0])][o] = true
			unique = unique && len(ids[uint(x[0])]) == 1
			n++
		}
		go func() {
			for _, x := range f {
				ch <- comparer.BlockMatchResult{BlockIdx: uint(x[0]), ComparisonOffset: int64(x[1]) + int64(x[0])*c.BS}
			}
			if c.Err[i] {
				ch <- comparer.BlockMatchResult{Err: gen.ErrInjected}
			}
			close(ch)
		}()
	}
	spans := m.GetMergedBlocks()
	covered := map[uint]bool{}
	for i, s := range spans {
		if i > 0 && spans[i-1].EndBlock >= s.StartBlock {
			return vh.Failf("spans overlap: %+v", spans)
		}
		for b := s.StartBlock; b <= s.EndBlock; b++ {
			if !ids[b][s.ComparisonStartOffset+c.BS*int64(b-s.StartBlock)] {
				return vh.Failf("block %d is put where it was not reported: %+v", b, spans)
			}
			covered[b] = true
		}
	}
	if len(covered) != len(ids) {
		return vh.Failf("%d blocks merged, %d reported", len(covered), len(ids))
	}
	if unique {
		// nothing depends on the order: compare with one stream
		m2 := &comparer.MatchMerger{}
		ch := make(chan comparer.BlockMatchResult)
		m2.StartMergeResultStream(ch, c.BS)
		for _, f := range c.Feeds {
			for _, x := range f {
				ch <- comparer.BlockMatchResult{BlockIdx: uint(x[0]), ComparisonOffset: int64(x[1]) + int64(x[0])*c.BS}
			}
		}
		close(ch)
		if seq := m2.GetMergedBlocks(); fmt.Sprint(seq) != fmt.Sprint(spans) {
			return vh.Failf("several streams give %+v, one gives %+v", spans, seq)
		}
		r.Class("compared with one stream")
	}
	if n > 3 {
		r.NonTrivial()
	}
	return nil
}

// ---- a block source used by a producer, a consumer, a monitor and a closer

type srcCase struct {
	BS     int      `json:"bs"`
	Blocks int      `json:"blocks"`
	Conc   int      `json:"conc"`
	Split  int      `json:"split,omitempty"`
	Spans  [][2]int `json:"spans"`
	Verify bool     `json:"verify,omitempty"`
	FailAt int      `json:"failat"` // -1: never
	Bad    bool     `json:"bad,omitempty"`
	Close  int      `json:"close"` // deliveries after which somebody closes it; -1 at the end
	Delay  []int    `json:"delay,omitempty"`
	HTTP   bool     `json:"http,omitempty"` // from a web server
}

// genHTTPSrc has more fetches at once than genSrc
func genHTTPSrc(t *rapid.T) srcCase {
	c := genSrc(t)
	c.HTTP = true
	c.Conc += rapid.IntRange(0, 10).Draw(t, "more")
	c.Split = rapid.IntRange(1, c.BS).Draw(t, "oneEach")
	c.Verify = c.Verify && rapid.Bool().Draw(t, "verified")
	return c
}

func runHTTPSrc(c srcCase, r *vh.Rec) (err error) {
	if !vh.RealTime(func() { err = runSrc(c, r) }) {
		return vh.Failf("fetching from a web server does not end")
	}
	return err
}

// fetched answers ranged requests with what req gives, or fails
func fetched(req *e2e.Requester) http.HandlerFunc {
	return func(w http.ResponseWriter, q *http.Request) {
		var a, b int64
		if _, err := fmt.Sscanf(q.Header.Get("Range"), "bytes=%d-%d", &a, &b); err != nil || a < 0 || b < a || b >= int64(len(req.Data)) {
			http.Error(w, "range", http.StatusRequestedRangeNotSatisfiable)
			return
		}
		d, err := req.DoRequest(a, b+1)
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
		w.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b, len(req.Data)))
		w.WriteHeader(http.StatusPartialContent)
		w.Write(d)
	}
}

func genSrc(t *rapid.T) srcCase {
	c := srcCase{BS: rapid.IntRange(1, 8).Draw(t, "bs"), Blocks: rapid.IntRange(1, 40).Draw(t, "blocks"), Conc: rapid.IntRange(1, 5).Draw(t, "conc")}
	if rapid.Bool().Draw(t, "splitReq") {
		c.Split = rapid.IntRange(1, 30).Draw(t, "split")
	}
	for i, k := 0, rapid.IntRange(1, 8).Draw(t, "spans"); i < k; i++ {
		a := rapid.IntRange(0, c.Blocks-1).Draw(t, "from")
		c.Spans = append(c.Spans, [2]int{a, a + rapid.IntRange(0, min(6, c.Blocks-1-a)).Draw(t, "len")})
	}
	c.Verify = rapid.Bool().Draw(t, "verify")
	c.FailAt, c.Close = -1, -1
	switch rapid.IntRange(0, 3).Draw(t, "end") {
	case 0:
		c.FailAt = rapid.IntRange(0, 6).Draw(t, "failAt")
		c.Bad = rapid.Bool().Draw(t, "bad")
	case 1:
		c.Close = rapid.IntRange(0, 6).Draw(t, "closeAfter")
	}
	if rapid.Bool().Draw(t, "delays") {
		c.Delay = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 5).Draw(t, "delay")
	}
	return c
}

func runSrc(c srcCase, r *vh.Rec) error {
	data := gen.Expand(3, c.BS*c.Blocks)
	sum, err := e2e.Summary(data, c.BS)
	if err != nil {
		return vh.Failf("%v", err)
	}
	req := &e2e.Requester{Data: data, Delay: c.Delay}
	req.Fault = func(n int, _, _ int64, good []byte) ([]byte, error) {
		if c.FailAt < 0 || n < c.FailAt {
			return good, nil
		}
		if c.Bad && c.Verify {
			good[0] ^= 1
			return good, nil
		}
		return nil, gen.ErrInjected
	}
	var v blocksources.BlockVerifier
	if c.Verify {
		v = &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(c.BS), BlockChecksumGetter: sum}
	}
	resolver := &blocksources.FixedSizeBlockResolver{
		BlockSize: uint64(c.BS), FileSize: int64(len(data)), MaxDesiredRequestSize: uint64(c.Split),
	}
	var src *blocksources.BlockSourceBase
	if c.HTTP {
		web := httptest.NewServer(fetched(req))
		defer web.Close()
		src = blocksources.NewHttpBlockSource(web.URL+"/ref", c.Conc, resolver, v)
	} else {
		src = blocksources.NewBlockSourceBase(req, resolver, v, c.Conc, 1<<20)
	}

	want := map[uint]int{}
	total := 0
	for _, s := range c.Spans {
		for b := s[0]; b <= s[1]; b++ {
			want[uint(b)]++
			total++
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(2)
	var readBytes int64
	go func() { // producer
		defer wg.Done()
		for _, s := range c.Spans {
			if src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: int64(c.BS), StartBlock: uint(s[0]), EndBlock: uint(s[1])}) != nil {
				return
			}
		}
	}()
	go func() { // monitor
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				readBytes = src.ReadBytes()
				time.Sleep(time.Millisecond)
			}
		}
	}()
	results, errs := src.GetResultChannel(), src.EncounteredError()
	got := 0
	var failure error
	closing := false
	closed := make(chan struct{}, 1)
	shut := func() {
		if !closing {
			closing = true
			go func() { src.Close(); closed <- struct{}{} }()
		}
	}
	if c.Close == 0 {
		shut()
	}
	var bad error
	for results != nil && bad == nil {
		select {
		case x, ok := <-results:
			if !ok {
				results = nil
				break
			}
			k := (len(x.Data) + c.BS - 1) / c.BS
			for b := 0; b < k; b++ {
				id := x.StartBlock + uint(b)
				if !bytes.Equal(e2e.Block(x.Data, c.BS, b), e2e.Block(data, c.BS, int(id))) {
					bad = vh.Failf("block %d is delivered with other data", id)
				}
				if want[id]--; want[id] < 0 {
					bad = vh.Failf("block %d is delivered more often than requested", id)
				}
				got++
			}
			if c.Close > 0 && got >= c.Close || got == total {
				shut()
			}
		case e, ok := <-errs:
			if !ok {
				errs = nil
				break
			}
			failure = e
			shut()
		}
	}
	if bad == nil {
		<-closed
	}
	close(stop)
	if bad != nil {
		return bad
	}
	wg.Wait()
	_ = readBytes
	if failure != nil && c.FailAt < 0 {
		return vh.Failf("failed without cause: %v", failure)
	}
	if failure == nil && c.Close < 0 && got != total {
		return vh.Failf("%d of %d blocks delivered", got, total)
	}
	r.ClassIf(failure != nil, "failed")
	r.ClassIf(c.Close >= 0 && got < total, "closed early")
	r.ClassIf(got == total, "all delivered")
	if total > 2 {
		r.NonTrivial()
	}
	return nil
}

// ---- a checksum generator reused as soon as its result is there

type genrCase struct {
	BS    int         `json:"bs"`
	Files [][]gen.Seg `json:"files"`
	How   []int       `json:"how"` // per file: stream, write, index
	Batch int         `json:"batch"`
	Side  bool        `json:"side,omitempty"` // one generator per file, all at once
}

func genGenr(t *rapid.T) genrCase {
	c := genrCase{BS: gen.BlockSize(t, 1, 24), Batch: rapid.IntRange(1, 5).Draw(t, "batch")}
	for i, k := 0, rapid.IntRange(2, 5).Draw(t, "files"); i < k; i++ {
		c.Files = append(c.Files, gen.Content(t, c.BS, 200))
		c.How = append(c.How, rapid.IntRange(0, 3).Draw(t, "how"))
	}
	c.Side = rapid.Bool().Draw(t, "side")
	return c
}

func runGenr(c genrCase, r *vh.Rec) error {
	if c.Side {
		r.Class("generators side by side")
		errs := make(chan error)
		for i, f := range c.Files {
			one := genrCase{BS: c.BS, Batch: c.Batch, Files: [][]gen.Seg{f}, How: c.How[i : i+1]}
			go func() { errs <- runGenrs(one, r, i) }()
		}
		var err error
		for range c.Files {
			if e := <-errs; e != nil {
				err = e
			}
		}
		return err
	}
	return runGenrs(c, r, 0)
}

var recording sync.Mutex

func runGenrs(c genrCase, r *vh.Rec, first int) error {
	g := filechecksum.NewFileChecksumGenerator(uint(c.BS))
	for i, f := range c.Files {
		i += first
		data := gen.Build(f, nil)
		want := oracle.Index(data, c.BS, 0, 0, 0)[oracle.HeaderSize:]
		var got, sum []byte
		var err error
		switch c.How[i-first] {
		case 0: // up to the result that carries the file checksum, not to the end of the channel
			ch := g.StartChecksumGeneration(bytes.NewReader(data), uint(c.Batch), nil)
			for x := range ch {
				if x.Err != nil {
					return vh.Failf("file %d: %v", i, x.Err)
				}
				for _, k := range x.Checksums {
					got = append(append(got, k.WeakChecksum...), k.StrongChecksum...)
				}
				if x.Filechecksum != nil {
					sum = x.Filechecksum
					break
				}
			}
		case 1:
			var b bytes.Buffer
			sum, err = g.GenerateChecksums(bytes.NewReader(data), &b)
			got = b.Bytes()
		case 2:
			sum, _, _, err = indexbuilder.BuildChecksumIndex(g, bytes.NewReader(data))
			got = want
		default: // the whole channel
			for x := range g.StartChecksumGeneration(bytes.NewReader(data), uint(c.Batch), nil) {
				for _, k := range x.Checksums {
					got = append(append(got, k.WeakChecksum...), k.StrongChecksum...)
				}
				if x.Filechecksum != nil {
					sum = x.Filechecksum
				}
			}
		}
		if err != nil {
			return vh.Failf("file %d: %v", i, err)
		}
		if !bytes.Equal(got, want) {
			return vh.Failf("file %d: reusing a generator, or using another one, changes the checksums: %s", i, e2e.Diff(got, want))
		}
		if w := oracle.MD5(data); !bytes.Equal(sum, w) {
			return vh.Failf("file %d: reusing a generator, or using another one, gives file checksum %x instead of %x", i, sum, w)
		}
		if len(data) > c.BS && i > 0 {
			recording.Lock()
			r.NonTrivial()
			recording.Unlock()
		}
	}
	return nil
}

// ---- files and HTTP

type httpCase struct {
	P e2e.Case `json:"p"`
	K int      `json:"k"`
}

var server = sync.OnceValue(func() *srv {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s := &srv{base: "http://" + l.Addr().String() + "/"}
	go http.Serve(l, s)
	return s
})

type srv struct {
	mu   sync.Mutex
	base string
	data []byte
}

func (s *srv) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	s.mu.Lock()
	data := s.data
	s.mu.Unlock()
	http.ServeContent(w, q, "ref", time.Time{}, bytes.NewReader(data))
}

func runHTTP(c httpCase, r *vh.Rec) error {
	ref, local := c.P.Contents()
	sum, err := e2e.Summary(ref, c.P.BS)
	if err != nil {
		return vh.Failf("%v", err)
	}
	s := server()
	s.mu.Lock()
	s.data = ref
	s.mu.Unlock()
	gosync.DefaultConcurrency = c.P.Conc
	dir, err := os.MkdirTemp("", "c23")
	vh.Must(err)
	defer os.RemoveAll(dir)
	in := dir + "/in"
	vh.Must(os.WriteFile(in, local, 0o600))
	errs := make([]error, c.K)
	if !vh.RealTime(func() {
		var wg sync.WaitGroup
		for i := 0; i < c.K; i++ {
			out := fmt.Sprintf("%s/out%d", dir, i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs, err := gosync.MakeRSync(in, s.base, out, sum)
				if err == nil {
					err = rs.Patch()
				}
				if err == nil {
					err = rs.Close()
				}
				if err != nil {
					errs[i] = vh.Failf("patching files failed: %v", err)
					return
				}
				got, err := os.ReadFile(out)
				vh.Must(err)
				if !bytes.Equal(got, ref) {
					errs[i] = vh.Failf("wrong output: %s", e2e.Diff(got, ref))
				}
			}()
		}
		wg.Wait()
	}) {
		return vh.Failf("patching files does not end")
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if len(ref) > c.P.BS && len(local) > 2*c.P.BS {
		r.NonTrivial()
	}
	return nil
}

var check = &vh.Check{
	ID: "C23",
	Parts: []*vh.Part{
		vh.NewPart("patch", "patches with 2..9 matchers, one to three at once sharing an index, with readers of the byte count and failing sources; non-trivial: more than one reference block and a local file of more than two", 400, 25000, true, genPatch, runPatch),
		vh.NewPart("comparer", "two to five goroutines scan generated streams with one comparer; the matches and counters equal those of scanning one after the other; non-trivial: something matched", 800, 60000, true, genCmp, runCmp),
		vh.NewPart("merger", "two to six goroutines feed generated results to one merger; non-trivial: more than three results", 1500, 100000, true, genMerge, runMerge),
		vh.NewPart("source", "a producer, a consumer, a monitor and somebody closing use one block source with concurrent, failing and corrupt fetches; non-trivial: more than two blocks", 1500, 80000, true, genSrc, runSrc),
		vh.NewPart("httpsource", "as source, but with a block source that fetches from a loopback web server, one block each; non-trivial: more than two blocks", 150, 8000, false, genHTTPSrc, runHTTPSrc),
		vh.NewPart("generator", "two to five generated files are indexed with one generator, each as soon as the previous result is there, or at once, with one generator each; non-trivial: a file of more than a block that is not the first", 1500, 100000, true, genGenr, runGenr),
		vh.NewPart("http", "one to three patches by file name at once over a loopback web server; non-trivial: as patch", 60, 4000, false, func(t *rapid.T) httpCase {
			return httpCase{P: e2e.Gen(t, 2, 32, 500), K: rapid.IntRange(1, 3).Draw(t, "k")}
		}, runHTTP),
	},
	Procs: 4,
	Assumptions: []string{
		"built with Go's race detector: only accesses that are unsynchronised in an interleaving that ran are reported",
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
