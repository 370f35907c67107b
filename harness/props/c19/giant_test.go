package c19

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

// giant is a file of more than 2 or 4 GiB on disk, almost all of which is a hole.
type giant struct {
	Build bool    `json:"build"` // of its index; otherwise a small file is patched from it
	Ask   bool    `json:"ask"`   // or it is the reference, of which a web server gives away some
	BS    int     `json:"bs"`
	N     int64   `json:"n"`
	At    []int64 `json:"at"` // where it has data
	Seed  uint64  `json:"seed"`
	Miss  int     `json:"miss"` // blocks that the large file does not have
	Tail  int     `json:"tail"`
	Out   bool    `json:"out"`
}

func genGiant(t *rapid.T) giant {
	return drawGiant(t, giant{Build: rapid.Bool().Draw(t, "build")})
}

func genAsk(t *rapid.T) giant { return drawGiant(t, giant{Ask: true}) }

func drawGiant(t *rapid.T, c giant) giant {
	c.N = rapid.SampledFrom([]int64{1<<31 + 1<<25, 1<<32 + 1<<25, 1<<32 + 1<<27, 1<<32 + 1<<27}).Draw(t, "n") + int64(gen.Pos(t, 1<<24, "more"))
	if c.Ask {
		c.N = rapid.SampledFrom([]int64{1 << 31, 1 << 32, 1 << 32, 1 << 32, 1 << 33}).Draw(t, "size") + rapid.Int64Range(0, 20<<20).Draw(t, "more")
	}
	if c.Build || c.Ask {
		c.BS = rapid.SampledFrom([]int{1 << 16, 100000, 1 << 20, 3000001, 1 << 24}).Draw(t, "bs")
	} else {
		// all zeros have the same weak checksum, so that each window at the end of
		// the file is hashed: only a small block size is feasible
		c.BS = 10000 + gen.Pos(t, 14000, "bs")
	}
	c.Seed = rapid.Uint64Range(0, 1<<20).Draw(t, "seed")
	c.Miss = rapid.IntRange(0, 2).Draw(t, "miss")
	c.Tail = gen.Pos(t, c.BS-1, "tail")
	c.Out = rapid.Bool().Draw(t, "out")
	for i, k := 0, rapid.IntRange(1, 5).Draw(t, "pieces"); i < k; i++ {
		switch rapid.IntRange(0, 2).Draw(t, "where") {
		case 0:
			c.At = append(c.At, rapid.Int64Range(0, c.N).Draw(t, "at"))
		case 1:
			c.At = append(c.At, c.N>>31<<31+rapid.Int64Range(-2*int64(c.BS), 2*int64(c.BS)).Draw(t, "near"))
		default:
			c.At = append(c.At, c.N-rapid.Int64Range(0, 1<<24).Draw(t, "back"))
		}
	}
	last := c.N - int64(c.BS) - int64(gen.Pos(t, 2000, "last"))
	for i := range c.At {
		c.At[i] = min(c.At[i], last-int64(len(c.At)-i)*int64(c.BS))
	}
	c.At = append(c.At, last)
	return c
}

func runGiant(c giant, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	abs := func(n string) string { return filepath.Join(dir, n) }
	bs := int64(c.BS)
	if c.Ask {
		return runAsk(c, dir, r)
	}
	f, err := os.Create(abs("large"))
	vh.Must(err)
	defer f.Close()
	vh.Must(f.Truncate(c.N))
	at := append([]int64{}, c.At...)
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	o := cli.Options{Seconds: 400}
	ref := make([]byte, bs) // a block of zeros and what is put into the file
	end := int64(0)
	dirty := map[int64]bool{}
	for i, p := range at {
		if p = max(p, end); p+bs > c.N {
			break
		}
		d := gen.Expand(c.Seed*64+uint64(i)+1, c.BS)
		_, err := f.WriteAt(d, p)
		vh.Must(err)
		end = p + bs
		ref = append(ref, d...)
		for b := p / bs; b <= (end-1)/bs; b++ {
			dirty[b] = true
		}
		r.ClassIf(p > 1<<32, "data beyond 4 GiB")
	}
	if c.Build {
		res := o.Run(dir, "build", "--blocksize", strconv.Itoa(c.BS), "large")
		if !res.OK() {
			return vh.Failf("%v", res)
		}
		got := cli.Read(abs("large.gosync"))
		if len(got) < oracle.HeaderSize {
			return vh.Failf("the index has only %d bytes", len(got))
		}
		v := func(o int) uint16 { return binary.LittleEndian.Uint16(got[o:]) }
		want := oracle.Index(nil, c.BS, v(6), v(8), v(10))
		binary.LittleEndian.PutUint64(want[12:], uint64(c.N))
		buf := make([]byte, bs)
		zero := append(oracle.Weak(buf), oracle.MD5(buf)...)
		for b := int64(0); b*bs < c.N; b++ {
			if n := min(bs, c.N-b*bs); dirty[b] || n < bs {
				_, err := f.ReadAt(buf[:n], b*bs)
				vh.Must(err)
				want = append(append(want, oracle.Weak(buf[:n])...), oracle.MD5(buf[:n])...)
			} else {
				want = append(want, zero...)
			}
		}
		if !bytes.Equal(got, want) {
			i := 0
			for i < min(len(got), len(want)) && got[i] == want[i] {
				i++
			}
			return vh.Failf("the index of a file of %d bytes at block size %d has %d bytes, should have %d, and differs at byte %d", c.N, bs, len(got), len(want), i)
		}
		r.Class("built")
	} else {
		for i := 0; i < c.Miss; i++ {
			ref = append(ref, gen.Expand(c.Seed*64+40+uint64(i), c.BS)...)
		}
		ref = append(ref, gen.Expand(c.Seed*64+50, c.Tail)...)
		cli.Write(abs("ref"), ref)
		if res := o.Run(dir, "build", "--blocksize", strconv.Itoa(c.BS), "ref"); !res.OK() {
			return vh.Failf("%v", res)
		}
		args := []string{"patch", "large", "ref.gosync", "ref"}
		out := "large"
		if c.Out {
			out = "out"
			args = append(args, out)
		}
		if res := o.Run(dir, args...); !res.OK() {
			return vh.Failf("%v", res)
		}
		fi, err := os.Stat(abs(out))
		if err != nil || fi.Size() != int64(len(ref)) {
			return vh.Failf("patching from a file of %d bytes gives %v, %v instead of %d bytes", c.N, fi, err, len(ref))
		}
		if !bytes.Equal(cli.Read(abs(out)), ref) {
			return vh.Failf("patching from a file of %d bytes at block size %d gives something else than the reference of %d bytes", c.N, bs, len(ref))
		}
		r.Class("patched")
	}
	if c.N > 1<<32 {
		r.NonTrivial()
	}
	return nil
}

// askLimit is how many requests are answered, which is no more than about 30 MB
const askLimit = 30

// runAsk patches a small file to a reference of more than 2 or 4 GiB that only
// exists as the answers to the requests made: all of its blocks are the same, but
// for the short last one. The server gives up after a few requests, so that the
// patch fails, but what was asked for until then is all there is to see.
func runAsk(c giant, dir string, r *vh.Rec) error {
	bs := int64(c.BS)
	abs := func(n string) string { return filepath.Join(dir, n) }
	d := gen.Expand(c.Seed+1, c.BS)
	sums := append(oracle.Weak(d), oracle.MD5(d)...)

	cli.Write(abs("sample"), []byte("x"))
	if res := (cli.Options{}).Run(dir, "build", "--blocksize", strconv.Itoa(c.BS), "sample"); !res.OK() {
		return vh.Failf("%v", res)
	}
	ix := cli.Read(abs("sample.gosync"))
	if len(ix) < oracle.HeaderSize {
		return vh.Failf("the index has only %d bytes", len(ix))
	}
	ix = ix[:oracle.HeaderSize:oracle.HeaderSize]
	binary.LittleEndian.PutUint64(ix[12:], uint64(c.N))
	for b := int64(0); b*bs < c.N; b++ {
		if n := min(bs, c.N-b*bs); n < bs {
			ix = append(append(ix, oracle.Weak(d[:n])...), oracle.MD5(d[:n])...)
		} else {
			ix = append(ix, sums...)
		}
	}
	cli.Write(abs("ref.gosync"), ix)
	// the local file has some of it, in the wrong place for the last block
	local := gen.Expand(c.Seed+2, c.Miss*c.BS+c.Tail)
	if c.Out {
		local = append(local, gen.Expand(c.Seed+3, c.BS)...)
	}
	cli.Write(abs("local"), local)

	var mu sync.Mutex
	var asked int
	var bad error
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		asked++
		var from, to int64
		if _, err := fmt.Sscanf(q.Header.Get("Range"), "bytes=%d-%d", &from, &to); err != nil {
			bad = vh.Failf("the request has the range %q", q.Header.Get("Range"))
		} else if from%bs != 0 || to < from || to >= c.N || (to+1)%bs != 0 && to+1 != c.N {
			bad = vh.Failf("%q is asked for, which is not whole blocks of %d bytes of a file of %d", q.Header.Get("Range"), bs, c.N)
		} else if to-from >= 64<<20 {
			bad = vh.Failf("%d bytes are asked for at once", to-from+1)
		}
		if bad != nil || asked > askLimit {
			w.WriteHeader(http.StatusServiceUnavailable)
			return
		}
		w.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, to, c.N))
		w.Header().Set("Content-Length", strconv.FormatInt(to-from+1, 10))
		w.WriteHeader(http.StatusPartialContent)
		for from <= to {
			n := min(to+1-from, bs)
			w.Write(d[:n])
			from += n
		}
	}))
	defer srv.Close()
	res := cli.Options{Seconds: 200}.Run(dir, "patch", "local", "ref.gosync", srv.URL+"/ref", "out")
	mu.Lock()
	defer mu.Unlock()
	switch {
	case bad != nil:
		return bad
	case res.OK() || res.Crashed() || res.Hung != "":
		return vh.Failf("the server failed at request %d: %v", askLimit+1, res)
	case asked <= askLimit:
		return vh.Failf("after %d requests for a file of %d bytes, which were answered: %v", asked, c.N, res)
	}
	r.Class("asked for")
	if c.N >= 1<<32 {
		r.NonTrivial()
	}
	return nil
}
