package c01

import (
	"bytes"
	"net"
	"net/http"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/vh"
)

func run(c e2e.Case, r *vh.Rec) error {
	defer e2e.WithSum(c.Sum)()
	r.ClassIf(c.Sum != "", "other strong checksum")
	ref, local := c.Contents()
	sum, err := e2e.Summary(ref, c.BS)
	if err != nil {
		return vh.Failf("index of a readable file failed: %v", err)
	}
	req := &e2e.Requester{Data: ref, Delay: c.Delay}
	src := c.NewSource(req, sum)
	var out bytes.Buffer
	err = e2e.Run(c, &e2e.LocalFile{Reader: bytes.NewReader(local), Short: c.Short}, src, sum, &out)
	if err != nil {
		return vh.Failf("patching failed: %v (reference %s, local %s)", err, e2e.Show(ref), e2e.Show(local))
	}
	if !bytes.Equal(out.Bytes(), ref) {
		return vh.Failf("output is not the reference: %s (reference %s, local %s)", e2e.Diff(out.Bytes(), ref), e2e.Show(ref), e2e.Show(local))
	}
	src.Close()

	fetched := int64(0)
	for _, s := range req.Fetched() {
		fetched += s.To - s.From
	}
	if c.Source == "readseeker" {
		fetched = -1
	}
	mixed := fetched > 0 && fetched < int64(len(ref))
	r.ClassIf(len(ref) == 0, "empty reference")
	r.ClassIf(len(local) < c.BS, "local shorter than a block")
	r.ClassIf(len(ref)%c.BS != 0, "short last block")
	r.ClassIf(mixed, "copied and fetched")
	r.ClassIf(fetched == 0 && len(ref) > 0, "all copied")
	r.ClassIf(c.Conc > 1 && len(local) > c.Conc*c.BS, "sections larger than a block")
	r.ClassIf(len(req.Fetched()) > 1, "several fetches")
	r.ClassIf(c.BS == 1, "block size 1")
	seen := map[string]bool{}
	for i := 0; i*c.BS < len(ref); i++ {
		b := string(e2e.Block(ref, c.BS, i))
		r.ClassIf(seen[b], "repeated blocks")
		seen[b] = true
	}
	if len(ref) > c.BS && len(local) >= c.BS {
		r.NonTrivial()
	}
	return nil
}

// web serves the reference of the current case.
type web struct {
	mu   sync.Mutex
	base string
	n    int
	ref  []byte
}

var srv = sync.OnceValue(func() *web {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	w := &web{base: "http://" + l.Addr().String()}
	go http.Serve(l, w)
	return w
})

func (w *web) ServeHTTP(rw http.ResponseWriter, rq *http.Request) {
	w.mu.Lock()
	ref, ok := w.ref, rq.URL.Path == "/"+strconv.Itoa(w.n)
	w.mu.Unlock()
	if !ok {
		rw.WriteHeader(500) // a request of an earlier case
		return
	}
	http.ServeContent(rw, rq, "ref", time.Time{}, bytes.NewReader(ref))
}

// runFiles patches by file names.
func runFiles(c e2e.Case, r *vh.Rec) error {
	defer e2e.WithSum(c.Sum)()
	r.ClassIf(c.Sum != "", "other strong checksum")
	ref, local := c.Contents()
	sum, err := e2e.Summary(ref, c.BS)
	if err != nil {
		return vh.Failf("index of a readable file failed: %v", err)
	}
	dir, err := os.MkdirTemp("", "c01")
	vh.Must(err)
	defer os.RemoveAll(dir)
	vh.Must(os.WriteFile(dir+"/in", local, 0o600))
	source := dir + "/ref"
	if c.Source == "readseeker" {
		vh.Must(os.WriteFile(source, ref, 0o600))
		r.Class("file")
	} else {
		w := srv()
		w.mu.Lock()
		w.n++
		w.ref = ref
		source = w.base + "/" + strconv.Itoa(w.n)
		w.mu.Unlock()
		r.Class("URL")
	}
	gosync.DefaultConcurrency = c.Conc
	if !vh.RealTime(func() {
		var rs *gosync.RSync
		if rs, err = gosync.MakeRSync(dir+"/in", source, dir+"/out", sum); err != nil {
			return
		}
		err = rs.Patch()
		if e := rs.Close(); err == nil {
			err = e
		}
	}) {
		return vh.Failf("patching files does not end")
	}
	if err != nil {
		return vh.Failf("patching files failed: %v (reference %s, local %s)", err, e2e.Show(ref), e2e.Show(local))
	}
	got, err := os.ReadFile(dir + "/out")
	vh.Must(err)
	if !bytes.Equal(got, ref) {
		return vh.Failf("output is not the reference: %s (reference %s, local %s)", e2e.Diff(got, ref), e2e.Show(ref), e2e.Show(local))
	}
	if len(ref) > c.BS && len(local) >= c.BS {
		r.NonTrivial()
	}
	return nil
}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) e2e.Case {
	return func(t *rapid.T) e2e.Case {
		c := e2e.Gen(t, minBS, maxBS, maxLen)
		c.Sum = rapid.SampledFrom(e2e.Sums).Draw(t, "sum")
		return c
	}
}

var check = &vh.Check{
	ID: "C01",
	Parts: []*vh.Part{
		vh.NewPart("small", "reference up to 200 bytes and a local version of it, both built from runs, periodic, random and small-alphabet pieces and copies of parts of the reference; block size 1..24, 1..9 matchers (rarely up to 150), three kinds of source, split requests with virtual delays, short local reads, MD5, SHA-1 or SHA-512 as the strong checksum; non-trivial: reference of more than one block and local of at least one",
			7500, 120000, true,
			genCase(1, 24, 200), run),
		vh.NewPart("large", "as small, with up to 20000 bytes and block size 60..900",
			450, 8000, true,
			genCase(60, 900, 20000), run),
		vh.NewPart("huge", "as small, with block sizes from 65535 to 131072 or about 65536 blocks of 4 to 6 bytes",
			10, 250, true, e2e.GenHuge, run),
		vh.NewPart("files", "as small and large, by file names: the source is a file or a URL on a loopback server",
			250, 12000, false,
			func(t *rapid.T) e2e.Case {
				if rapid.IntRange(0, 4).Draw(t, "large") == 0 {
					return genCase(60, 900, 20000)(t)
				}
				return genCase(1, 24, 200)(t)
			}, runFiles),
		vh.NewPart("giant", "local or reference file of more than 2 or 4 GiB, virtual and mostly equal bytes, with random blocks at generated places (at the end, around powers of two) of which the other file has some; block size 1 to 2 MiB; non-trivial: more than 4 GiB",
			1, 12, false, func(t *rapid.T) e2e.Giant { return e2e.GenGiant(t, false) }, func(c e2e.Giant, r *vh.Rec) error { return e2e.RunGiant(c, false, r) }),
	},
	Assumptions: []string{"the index is built by the code under test (checked by C06) and names the true file size and block count"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
