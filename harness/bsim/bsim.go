// Package bsim drives a BlockSourceBase through generated histories of requests,
// fetch completions, consumption, failures and closes. The harness owns every
// fetch: DoRequest blocks until the history completes it. It must run in a
// synctest bubble; after each step all goroutines of the source are idle, so a
// history is deterministic and "stuck" is exact.
package bsim

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

// Op is one step of a history.
type Op struct {
	K string `json:"k"`           // req, ok, err, bad, few, get, geterr, close, wait
	A int    `json:"a,omitempty"` // first block; or which running fetch
	B int    `json:"b,omitempty"` // number of blocks; or which byte to corrupt
}

// Case is a history.
type Case struct {
	BS       int  `json:"bs"`
	Blocks   int  `json:"blocks"`         // blocks in the file
	Tail     int  `json:"tail,omitempty"` // bytes missing from the last block
	Conc     int  `json:"conc"`
	Split    int  `json:"split,omitempty"`
	Bytes    int  `json:"bytes,omitempty"` // that may be in flight (0: a MiB)
	Verified bool `json:"verified,omitempty"`
	Unknown  bool `json:"unknown,omitempty"` // the source is not told the size of the file
	First    int  `json:"first,omitempty"`   // number of the first block that is asked for
	Ops      []Op `json:"ops"`
}

// Gen draws a history; with faults it includes failures and closes.
func Gen(t *rapid.T, maxBlocks, maxOps int, faults bool) Case {
	c := Case{BS: rapid.IntRange(1, 6).Draw(t, "bs"), Blocks: rapid.IntRange(1, maxBlocks).Draw(t, "blocks")}
	c.Tail = rapid.IntRange(0, c.BS-1).Draw(t, "tail")
	c.Conc = rapid.IntRange(1, 4).Draw(t, "conc")
	if rapid.Bool().Draw(t, "splits") {
		c.Split = rapid.IntRange(1, 4*c.BS).Draw(t, "split")
	}
	if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
		c.Bytes = rapid.IntRange(1, 12*c.BS).Draw(t, "bytes")
	}
	c.Verified = rapid.Bool().Draw(t, "verified")
	c.Unknown = rapid.IntRange(0, 2).Draw(t, "unknown") == 0
	kinds := []string{"req", "req", "req", "ok", "ok", "ok", "get", "get"}
	if rapid.IntRange(0, 4).Draw(t, "waits") == 0 {
		kinds = append(kinds, "wait")
	}
	if faults {
		wait := kinds[8:]
		kinds = []string{"req", "req", "req", "req", "ok", "ok", "ok", "get", "get", "err", "geterr", "close", "few"}
		kinds = append(kinds, wait...)
		if c.Verified {
			kinds = append(kinds, "bad")
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "far") == 0 {
		c.First = 1<<rapid.SampledFrom([]uint{8, 16, 31, 32, 40}).Draw(t, "first") - rapid.IntRange(0, 3).Draw(t, "before")
	}
	if rapid.IntRange(0, 30).Draw(t, "bigBlocks") == 0 && c.Blocks <= 12 {
		c.BS = rapid.SampledFrom([]int{255, 256, 65535, 65536, 65537}).Draw(t, "bigBS")
		c.Tail = c.BS / 6 * c.Tail
		c.Split *= c.BS / 4
		c.Bytes *= c.BS / 4
	}
	ascending := rapid.Bool().Draw(t, "ascending")
	next := 0
	n := rapid.IntRange(1, maxOps).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := Op{K: rapid.SampledFrom(kinds).Draw(t, "k")}
		switch o.K {
		case "req":
			if ascending {
				if next >= c.Blocks {
					continue
				}
				o.A = rapid.IntRange(next, min(c.Blocks-1, next+2)).Draw(t, "a")
			} else {
				o.A = rapid.IntRange(0, c.Blocks-1).Draw(t, "a")
			}
			o.B = rapid.IntRange(1, min(4, c.Blocks-o.A)).Draw(t, "b")
			next = o.A + o.B
		case "ok", "err":
			o.A = rapid.IntRange(0, 3).Draw(t, "which")
		case "bad", "few":
			o.A = rapid.IntRange(0, 3).Draw(t, "which")
			o.B = rapid.IntRange(0, 30).Draw(t, "byte")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// GenWide draws a history of few requests for many blocks, in many fetches, up
// to 40 of them at once.
func GenWide(t *rapid.T, faults bool) Case {
	c := Gen(t, 12, 25, faults)
	if c.BS > 6 {
		c.BS, c.Tail, c.Split, c.Bytes = 3, 0, 0, 0
	}
	scale := rapid.SampledFrom([]int{10, 30, 100, 200}).Draw(t, "scale")
	c.Conc = rapid.SampledFrom([]int{1, 2, 4, 9, 16, 17, 40}).Draw(t, "conc")
	if c.Split > 0 {
		c.Split = rapid.IntRange(1, 4*c.BS).Draw(t, "split")
	} else if rapid.IntRange(0, 3).Draw(t, "splits") > 0 {
		c.Split = 1
	}
	if c.Bytes > 0 {
		c.Bytes = rapid.IntRange(1, 40*c.BS).Draw(t, "bytes")
	}
	c.Blocks *= scale
	for i, o := range c.Ops {
		switch o.K {
		case "req":
			c.Ops[i].A, c.Ops[i].B = o.A*scale, o.B*scale
		case "ok", "err", "bad", "few":
			c.Ops[i].A = rapid.IntRange(0, 39).Draw(t, "which")
		}
	}
	return c
}

type fetch struct {
	n          int // dispatch order
	asked      int64
	start, end int64
	dispatched int // sequence numbers
	completed  int // 0: running
	good       bool
	delivered  bool
	data       []byte
	err        error
	done       chan struct{}
}

type sim struct {
	c       Case
	r       *vh.Rec
	mu      sync.Mutex
	seq     int
	fetches []*fetch
	maxRun  int
	piece   int64 // the largest fetch that may be necessary
	file    []byte

	src       *blocksources.BlockSourceBase
	requested map[int]int // block -> times
	ascending bool
	lastEnd   int
	delivered []int64
	closed    bool // Close was called
	failed    bool // a failure was completed before any Close
	errsRead  int
	resClosed bool
	errClosed bool
}

var errFetch = errors.New("fetch failed")

func (s *sim) DoRequest(start, end int64) ([]byte, error) {
	start -= int64(s.c.First * s.c.BS)
	end -= int64(s.c.First * s.c.BS)
	f := &fetch{start: start, end: end, asked: end - start, done: make(chan struct{})}
	s.mu.Lock()
	s.seq++
	f.dispatched = s.seq
	f.n = len(s.fetches)
	s.fetches = append(s.fetches, f)
	running := 0
	for _, x := range s.fetches {
		if x.completed == 0 {
			running++
		}
	}
	s.maxRun = max(s.maxRun, running)
	s.mu.Unlock()
	<-f.done
	return f.data, f.err
}

func (s *sim) IsFatal(error) bool { return true }

func (s *sim) running() []*fetch {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*fetch
	for _, f := range s.fetches {
		if f.completed == 0 {
			out = append(out, f)
		}
	}
	return out
}

// GetStrongChecksumForBlock makes the sim the checksum lookup of the verifier.
func (s *sim) GetStrongChecksumForBlock(i int) []byte {
	i -= s.c.First
	if i < 0 {
		return nil
	}
	return oracle.MD5(s.file[min(len(s.file), i*s.c.BS):min(len(s.file), (i+1)*s.c.BS)])
}

func (s *sim) complete(f *fetch, kind string, where int) error {
	if s.c.Unknown && f.end == int64(s.c.Blocks*s.c.BS) {
		// asks for whole blocks, as it must; the file ends earlier
		s.r.ClassIf(f.end > int64(len(s.file)), "fetch cut by the end of the file")
		f.end = int64(len(s.file))
	}
	if f.start < 0 || f.end > int64(len(s.file)) || f.end <= f.start || f.start%int64(s.c.BS) != 0 ||
		(f.end%int64(s.c.BS) != 0 && f.end != int64(len(s.file))) {
		return vh.Failf("fetch of bytes %d-%d of a %d byte file with block size %d", f.start, f.end, len(s.file), s.c.BS)
	}
	if s.c.Verified {
		f.data = append([]byte{}, s.file[f.start:f.end]...)
	} else {
		// different bytes for every fetch: nothing may be mixed up
		f.data = gen.Expand(uint64(f.n)+1, int(f.end-f.start))
	}
	f.good = true
	switch kind {
	case "err":
		f.err, f.good = errFetch, false
	case "bad":
		f.data[where%len(f.data)] ^= 0x55
		f.good = false
	case "few": // some of the blocks are left out at the end
		n := (len(f.data) + s.c.BS - 1) / s.c.BS
		f.data = f.data[:where%n*s.c.BS]
		f.good = false
	}
	s.mu.Lock()
	s.seq++
	f.completed = s.seq
	s.mu.Unlock()
	if !f.good {
		if s.closed {
			s.r.Class("failure after close")
		} else {
			if s.failed {
				s.r.Class("second failure")
			}
			s.failed = true
		}
		s.r.Class("completion: " + kind)
	}
	close(f.done)
	synctest.Wait()
	return nil
}

func (s *sim) request(a, n int) error {
	err := s.src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: int64(s.c.BS), StartBlock: uint(s.c.First + a), EndBlock: uint(s.c.First + a + n - 1)})
	synctest.Wait()
	if err != nil {
		if !s.closed && !s.failed {
			return vh.Failf("RequestBlocks on a working source returned %v", err)
		}
		s.r.Class("request refused")
		return nil
	}
	if a <= s.lastEnd {
		s.ascending = false
	}
	s.lastEnd = a + n - 1
	per := n
	if s.c.Split > 0 {
		per = min(n, max(1, s.c.Split/s.c.BS))
	}
	s.piece = max(s.piece, int64(per*s.c.BS))
	for b := a; b < a+n; b++ {
		s.requested[b]++
	}
	return nil
}

// get takes a response if one is offered.
func (s *sim) get() (bool, error) {
	synctest.Wait()
	var resp patcher.BlockReponse
	var ok bool
	select {
	case resp, ok = <-s.src.GetResultChannel():
	default:
		return false, nil
	}
	if !ok {
		s.resClosed = true
		return false, nil
	}
	defer synctest.Wait()
	start := (int64(resp.StartBlock) - int64(s.c.First)) * int64(s.c.BS)
	var f *fetch
	s.mu.Lock()
	for _, x := range s.fetches {
		if x.completed != 0 && !x.delivered && x.good && x.start == start && bytes.Equal(x.data, resp.Data) {
			f = x
			break
		}
	}
	s.mu.Unlock()
	if f == nil {
		return false, vh.Failf("delivered block %d with %d bytes %.60q, which is no undelivered good fetch; %s", resp.StartBlock, len(resp.Data), resp.Data, s.describe())
	}
	f.delivered = true
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, g := range s.fetches {
		if g.start < f.start && g.dispatched < f.completed && !g.delivered {
			return false, vh.Failf("block %d was delivered before block %d, whose fetch had started before the other completed; %s", resp.StartBlock, g.start/int64(s.c.BS), s.describe())
		}
	}
	for _, d := range s.delivered {
		if s.ascending && d >= f.start {
			return false, vh.Failf("requests were in ascending order but block %d was delivered after block %d; %s", resp.StartBlock, d/int64(s.c.BS), s.describe())
		}
	}
	s.delivered = append(s.delivered, f.start)
	return true, nil
}

func (s *sim) getErr() (bool, error) {
	synctest.Wait()
	select {
	case err, ok := <-s.src.EncounteredError():
		if !ok {
			s.errClosed = true
			return false, nil
		}
		synctest.Wait()
		if err == nil {
			return false, vh.Failf("a nil error was delivered")
		}
		if !s.failed {
			return false, vh.Failf("error %v although no fetch failed; %s", err, s.describe())
		}
		s.errsRead++
		return true, nil
	default:
		return false, nil
	}
}

func (s *sim) describe() string {
	out := fmt.Sprintf("blocks of %d bytes from %d, history %+v; fetches (relative):", s.c.BS, s.c.First, s.c.Ops)
	for _, f := range s.fetches {
		out += fmt.Sprintf(" [%d-%d started %d completed %d good %v delivered %v]", f.start, f.end, f.dispatched, f.completed, f.good, f.delivered)
	}
	return out
}

func (s *sim) countBytes() error {
	want := int64(0)
	for _, f := range s.fetches {
		if f.completed != 0 && f.err == nil {
			want += int64(len(f.data))
		}
	}
	if got := s.src.ReadBytes(); got != want {
		return vh.Failf("ReadBytes %d, but %d bytes were fetched; %s", got, want, s.describe())
	}
	return nil
}

func newSim(c Case, r *vh.Rec) *sim {
	s := &sim{c: c, r: r, requested: map[int]int{}, ascending: true, lastEnd: -1}
	s.file = gen.Expand(99, c.Blocks*c.BS-c.Tail)
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(c.BS), FileSize: int64(c.First*c.BS + len(s.file)), MaxDesiredRequestSize: uint64(c.Split)}
	if c.Unknown {
		res.FileSize = 0
	}
	var v blocksources.BlockVerifier
	if c.Verified {
		v = &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(c.BS), BlockChecksumGetter: s}
	}
	s.src = blocksources.NewBlockSourceBase(s, res, v, c.Conc, s.limit())
	synctest.Wait()
	return s
}

// Run executes the history and then drains it.
func Run(c Case, r *vh.Rec) error {
	s := newSim(c, r)
	r.ClassIf(c.First > 0, "high block numbers")
	r.ClassIf(c.BS > 65000, "blocks beyond 16 bits")
	defer func() {
		r.ClassIf(s.maxRun > 16, "more than 16 fetches at once")
		r.ClassIf(len(s.fetches) > 200, "more than 200 fetches")
	}()
	for _, o := range c.Ops {
		switch o.K {
		case "req":
			if err := s.request(o.A, o.B); err != nil {
				return err
			}
		case "ok", "err", "bad", "few":
			if run := s.running(); len(run) > 0 {
				if o.A%len(run) > 0 {
					r.Class("completed out of order")
				}
				if err := s.complete(run[o.A%len(run)], o.K, o.B); err != nil {
					return err
				}
			}
		case "get":
			if _, err := s.get(); err != nil {
				return err
			}
		case "geterr":
			if _, err := s.getErr(); err != nil {
				return err
			}
		case "wait": // of virtual time
			r.Class("a day passed")
			time.Sleep(24 * time.Hour)
			synctest.Wait()
		case "close":
			s.src.Close()
			synctest.Wait()
			r.ClassIf(s.closed, "closed twice")
			r.ClassIf(len(s.running()) > 0, "closed with fetches running")
			r.ClassIf(s.failed && s.errsRead == 0, "closed with an unread error")
			s.closed = true
			r.Class("closed")
		}
		if s.maxRun > c.Conc {
			return vh.Failf("%d fetches ran at once, the limit is %d; %s", s.maxRun, c.Conc, s.describe())
		}
		if !s.closed && !s.failed {
			if err := s.countBytes(); err != nil {
				return err
			}
			if err := s.busy(); err != nil {
				return err
			}
		}
	}
	if !s.closed && !s.failed {
		return s.drainHealthy()
	}
	return s.drainEnding()
}

func (s *sim) limit() int64 {
	if s.c.Bytes > 0 {
		return int64(s.c.Bytes)
	}
	return 1 << 20
}

// inFlight is what is being fetched or waits to be delivered.
func (s *sim) inFlight() (bytes int64, n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, f := range s.fetches {
		switch {
		case f.completed == 0:
			bytes += f.asked
			n++
		case f.good && !f.delivered:
			bytes += int64(len(f.data))
			n++
		}
	}
	return
}

// busy checks that a working source uses the concurrency it may use, and not more.
func (s *sim) busy() error {
	bytes, flying := s.inFlight()
	if bytes > s.limit() && flying > 1 {
		return vh.Failf("%d bytes are in flight in %d requests, the limit is %d; %s", bytes, flying, s.limit(), s.describe())
	}
	left := 0
	for _, n := range s.requested {
		left += n
	}
	for _, f := range s.fetches {
		left -= int((f.end+int64(s.c.BS)-1)/int64(s.c.BS) - f.start/int64(s.c.BS))
	}
	if flying > 0 && bytes+s.piece > s.limit() {
		s.r.ClassIf(left > 0, "limited by the bytes in flight")
		return nil
	}
	if n := len(s.running()); n < s.c.Conc && left > 0 {
		return vh.Failf("only %d fetches run, although %d are allowed and %d requested blocks have not been fetched; %s", n, s.c.Conc, left, s.describe())
	}
	return nil
}

func (s *sim) drainHealthy() error {
	for {
		progress := false
		if err := s.busy(); err != nil {
			return err
		}
		run := s.running()
		for i := len(run) - 1; i >= 0; i-- { // latest first: the worst order
			if err := s.complete(run[i], "ok", 0); err != nil {
				return err
			}
			progress = true
		}
		for {
			ok, err := s.get()
			if err != nil {
				return err
			}
			if !ok {
				break
			}
			progress = true
		}
		if s.maxRun > s.c.Conc {
			return vh.Failf("%d fetches ran at once, the limit is %d; %s", s.maxRun, s.c.Conc, s.describe())
		}
		if ok, err := s.getErr(); err != nil || ok {
			return vh.Failf("unexpected error from a working source: %v; %s", err, s.describe())
		}
		if !progress {
			break
		}
	}
	if s.resClosed || s.errClosed {
		return vh.Failf("the source shut down by itself; %s", s.describe())
	}
	got := map[int]int{}
	for _, f := range s.fetches {
		if !f.delivered {
			return vh.Failf("stuck: the fetch of bytes %d-%d completed but is never delivered; %s", f.start, f.end, s.describe())
		}
		for b := f.start / int64(s.c.BS); b*int64(s.c.BS) < f.end; b++ {
			got[int(b)]++
		}
	}
	for b := 0; b < s.c.Blocks; b++ {
		if got[b] != s.requested[b] {
			return vh.Failf("block %d was requested %d times and delivered %d times; %s", b, s.requested[b], got[b], s.describe())
		}
	}
	if err := s.countBytes(); err != nil {
		return err
	}
	s.src.Close()
	synctest.Wait()
	if _, err := s.get(); err != nil || !s.resClosed {
		return vh.Failf("the result channel is not closed after Close (%v)", err)
	}

	s.r.ClassIf(s.maxRun > 1, "fetches in parallel")
	s.r.ClassIf(s.ascending && len(s.delivered) > 1, "ascending requests")
	lower := false
	for i, f := range s.fetches {
		for _, g := range s.fetches[:i] {
			lower = lower || (f.start < g.start && g.completed > f.dispatched)
		}
	}
	s.r.ClassIf(lower, "lower position requested while a higher one was running")
	if len(s.fetches) > 1 && s.maxRun > 1 {
		s.r.NonTrivial()
	}
	return nil
}

func (s *sim) drainEnding() error {
	for round := 0; ; round++ {
		run := s.running()
		if s.closed && round > 0 && len(run) > 0 {
			return vh.Failf("a fetch was started after the source had been closed; %s", s.describe())
		}
		if len(run) == 0 && round > 0 {
			break
		}
		for _, f := range run {
			if err := s.complete(f, "ok", 0); err != nil {
				return err
			}
		}
		if round > 10000 {
			return vh.Failf("the source keeps fetching after a failure; %s", s.describe())
		}
	}
	// the consumer reads what is there
	for {
		a, err := s.get()
		if err != nil {
			return err
		}
		b, err := s.getErr()
		if err != nil {
			return err
		}
		if !a && !b {
			break
		}
	}
	if s.failed && s.errsRead == 0 {
		return vh.Failf("a fetch failed but the consumer is never told; %s", s.describe())
	}
	if !s.resClosed || !s.errClosed {
		return vh.Failf("the source does not shut down (result channel closed %v, error channel closed %v) although all fetches ended and errors were read; %s", s.resClosed, s.errClosed, s.describe())
	}
	if err := s.src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: int64(s.c.BS)}); err == nil {
		return vh.Failf("requesting from a source that has shut down reported success")
	}
	s.src.Close()
	s.src.Close()
	s.r.ClassIf(s.failed && s.closed, "failed and closed")
	s.r.ClassIf(s.maxRun > 1, "fetches in parallel")
	if len(s.fetches) > 1 {
		s.r.NonTrivial()
	}
	return nil
}
