package c26

import (
	"bytes"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"pgregory.net/rapid"
	"verif/vh"
)

// fetched is a patch, as a user would set it up, for which much has to be fetched.
type fetched struct {
	N    int    `json:"n"`
	BS   int    `json:"bs"`
	Conc int    `json:"conc"`
	Seed uint64 `json:"seed"`
	Have int    `json:"have"` // percent of the reference that the local file starts with
	HTTP bool   `json:"http"`
	Slow int    `json:"slow,omitempty"` // the response to one request in so many is late
}

func genFetched(minMB, maxMB int) func(t *rapid.T) fetched {
	return func(t *rapid.T) fetched {
		return fetched{
			N:    rapid.IntRange(minMB*mb, maxMB*mb).Draw(t, "n"),
			BS:   rapid.SampledFrom([]int{8192, 40000, 65536, 300000}).Draw(t, "bs"),
			Conc: rapid.IntRange(1, 8).Draw(t, "conc"),
			Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed"),
			Have: rapid.SampledFrom([]int{0, 0, 0, 10}).Draw(t, "have"),
			HTTP: rapid.IntRange(0, 2).Draw(t, "http") != 0,
			Slow: rapid.SampledFrom([]int{0, 3, 7}).Draw(t, "slow"),
		}
	}
}

// summary looks at the memory in use whenever something fetched is verified.
type summary struct {
	*gosync.BasicSummary
	m *meter
}

func (s *summary) GetStrongChecksumForBlock(i int) []byte {
	s.m.moved(int(s.BlockSize))
	return s.BasicSummary.GetStrongChecksumForBlock(i)
}

func runFetched(c fetched, r *vh.Rec) error {
	// matchers have their buffers, and a little is being fetched
	allowed := uint64(18*mb + c.Conc*(3*mb/2+6*c.BS) + 8*c.BS)
	quiet := newMeter(1 << 60)
	content := func(n int) *file { return &file{c: tc{Seed: c.Seed, How: "patch"}, n: int64(n), m: quiet} }
	var sums bytes.Buffer
	if _, err := filechecksum.NewFileChecksumGenerator(uint(c.BS)).GenerateChecksums(content(c.N), &sums); err != nil {
		return vh.Failf("GenerateChecksums: %v", err)
	}
	list, err := chunks.LoadChecksumsFromReader(&sums, 4, 16)
	if err != nil {
		return vh.Failf("loading checksums: %v", err)
	}
	// numbers that are nowhere in the local file, except at its start
	have := c.N / 100 * c.Have
	dir, err := os.MkdirTemp("", "c26")
	vh.Must(err)
	defer func() { vh.Must(os.RemoveAll(dir)) }()
	local, out := filepath.Join(dir, "local"), filepath.Join(dir, "out")
	put := func(name string, n int) {
		f, err := os.Create(name)
		vh.Must(err)
		_, err = io.Copy(f, content(n))
		vh.Must(err)
		vh.Must(f.Close())
	}
	put(local, have)
	source := filepath.Join(dir, "source")
	if c.HTTP {
		n := 0
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
			quiet.mu.Lock()
			n++
			late := c.Slow > 0 && n%c.Slow == 1
			quiet.mu.Unlock()
			if late {
				time.Sleep(20 * time.Millisecond)
			}
			http.ServeContent(w, rq, "source", time.Time{}, content(c.N))
		}))
		defer srv.Close()
		defer http.DefaultClient.CloseIdleConnections()
		source = srv.URL + "/source"
	} else {
		put(source, c.N)
	}
	m := newMeter(c.N / 10)
	sum := &summary{&gosync.BasicSummary{
		BlockSize: uint(c.BS), BlockCount: uint(len(list)), FileSize: int64(c.N),
		ChecksumIndex: index.MakeChecksumIndex(list), ChecksumLookup: chunks.StrongChecksumGetter(list),
	}, m}
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = c.Conc
	defer func() { gosync.DefaultConcurrency = old }()
	rs, err := gosync.MakeRSync(local, source, out, sum)
	if err != nil {
		return vh.Failf("MakeRSync: %v", err)
	}
	err = rs.Patch()
	if e := rs.Close(); err == nil {
		err = e
	}
	if err != nil {
		return vh.Failf("patching: %v", err)
	}
	if err := same(out, content(c.N), c.N); err != nil {
		return err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.most > allowed {
		return vh.Failf("a patch for which most of %d bytes are fetched (block size %d, %d matchers and connections, http %v) keeps %d bytes in memory, %d are allowed", c.N, c.BS, c.Conc, c.HTTP, m.most, allowed)
	}
	r.ClassIf(c.HTTP, "http")
	r.ClassIf(!c.HTTP, "path")
	r.ClassIf(m.most < allowed/2, "less than half of what is allowed")
	r.ClassIf(m.most < allowed/4, "less than a quarter of what is allowed")
	if m.looks > 0 && uint64(c.N-have) > allowed*5/4 {
		r.NonTrivial()
	}
	return nil
}
