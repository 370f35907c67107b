package c25

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/vh"
)

type tc struct {
	BS     int       `json:"bs"`
	Conc   int       `json:"conc"`
	Ref    []gen.Seg `json:"ref"`
	Local  []gen.Seg `json:"local"`
	Input  string    `json:"input"`  // file, missing, dir
	Source string    `json:"source"` // path, short, wrong, missing, dir, url, or a fault of the server
	Output string    `json:"output"` // new, existing, same, dir, noparent, full
	Count  int       `json:"count,omitempty"`
	Times  int       `json:"times"` // how often Patch is called
}

func genCase(t *rapid.T) tc {
	c := tc{BS: gen.BlockSize(t, 1, 24), Conc: rapid.SampledFrom([]int{1, 2, 3, 5}).Draw(t, "conc")}
	c.Ref = gen.Content(t, c.BS, 200)
	ref := gen.Build(c.Ref, nil)
	c.Local = gen.Edited(t, c.BS, len(ref), 200)
	c.Input = rapid.SampledFrom([]string{"file", "file", "file", "file", "missing", "dir"}).Draw(t, "input")
	c.Source = rapid.SampledFrom([]string{"path", "path", "path", "short", "wrong", "missing", "dir", "url", "404", "cut", "404 page", "whole", "gzip", "long", "500 page"}).Draw(t, "source")
	c.Output = rapid.SampledFrom([]string{"new", "existing", "same", "same", "dir", "noparent", "full"}).Draw(t, "output")
	if rapid.IntRange(0, 4).Draw(t, "wrongIndex") == 0 {
		c.Count = rapid.SampledFrom([]int{-1, 1}).Draw(t, "count")
	}
	c.Times = rapid.SampledFrom([]int{1, 1, 1, 1, 0, 2}).Draw(t, "patches")
	return c
}

type web struct {
	base string
	mu   sync.Mutex
	c    tc
	ref  []byte
	path string
}

var srv = sync.OnceValue(func() *web {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	w := &web{base: "http://" + l.Addr().String()}
	go http.Serve(l, w)
	return w
})

func (w *web) ServeHTTP(rw http.ResponseWriter, rq *http.Request) {
	w.mu.Lock()
	ref, path, source := w.ref, w.path, w.c.Source
	w.mu.Unlock()
	var a, b int
	fmt.Sscanf(rq.Header.Get("Range"), "bytes=%d-%d", &a, &b)
	a, b = max(0, a), min(b+1, len(ref))
	// more than what fits into the buffers between here and the client
	page := func(status int) {
		rw.Header().Set("Content-Length", strconv.Itoa(len(ref)+16<<20))
		rw.WriteHeader(status)
		rw.Write(ref[min(a, len(ref)):])
		if status != 206 {
			rw.Write(make([]byte, 16<<20))
			return
		}
		rw.Write(make([]byte, b+16<<20-len(ref)))
	}
	switch {
	case rq.URL.Path != path:
		rw.WriteHeader(500)
	case source == "404":
		rw.WriteHeader(404)
	case source == "404 page":
		page(404)
	case source == "500 page":
		page(500)
	case source == "whole":
		page(200)
	case source == "gzip":
		rw.Header().Set("Content-Encoding", "gzip")
		page(206)
	case source == "long":
		page(206)
	case a >= b:
		rw.WriteHeader(416)
	default:
		rw.Header().Set("Content-Length", strconv.Itoa(b-a))
		rw.WriteHeader(206)
		if source == "cut" {
			rw.Write(ref[a : b-1])
			panic(http.ErrAbortHandler)
		}
		rw.Write(ref[a:b])
	}
}

// open lists the open files below dir.
func open(dir string, but map[string]bool) (out []string) {
	es, err := os.ReadDir("/proc/self/fd")
	vh.Must(err)
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(t, dir+"/") || t == "/dev/full") && !but[e.Name()] {
			out = append(out, strings.TrimPrefix(t, dir+"/"))
			if but != nil {
				but[e.Name()] = true
			}
		}
	}
	return
}

// earlier holds goroutines left by earlier cases, which have been reported.
var earlier, earlierFiles = map[string]bool{}, map[string]bool{}

// busy lists the goroutines that run code of the library, or hold a connection to a server
// for it.
func busy(report bool) (out []string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		i := strings.Index(g, "github.com/Redundancy/go-sync")
		if i < 0 {
			i = strings.Index(g, "net/http.(*persistConn)")
		}
		if i >= 0 && !strings.Contains(g, "c25.busy") {
			line, _, _ := strings.Cut(g[i:], "\n")
			id, _, _ := strings.Cut(g, " [") // goroutine N
			if earlier[id] {
				continue
			}
			earlier[id] = report
			out = append(out, line)
		}
	}
	return
}

// quiet waits until the library runs nothing, for five seconds.
func quiet() []string {
	for i := 0; i < 550; i++ {
		http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		if len(busy(false)) == 0 {
			return nil
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(10 * time.Millisecond)
		}
	}
	return busy(true)
}

var caseNo int

func run(c tc, r *vh.Rec) error {
	home, err := os.Getwd()
	vh.Must(err)
	dir, err := os.MkdirTemp(home, "case")
	vh.Must(err)
	dir, err = filepath.EvalSymlinks(dir)
	vh.Must(err)
	defer func() {
		vh.Must(os.Chdir(home))
		vh.Must(os.RemoveAll(dir))
	}()
	vh.Must(os.Chdir(dir)) // temporary files are made in the working directory
	ref := gen.Build(c.Ref, nil)
	local := gen.Build(c.Local, ref)
	write := func(n string, b []byte) string {
		p := filepath.Join(dir, n)
		vh.Must(os.WriteFile(p, b, 0o644))
		return p
	}
	in, out, source := filepath.Join(dir, "missing"), filepath.Join(dir, "out"), filepath.Join(dir, "nothing")
	d := filepath.Join(dir, "d")
	vh.Must(os.Mkdir(d, 0o755))
	switch c.Input {
	case "file":
		in = write("in", local)
	case "dir":
		in = d
	}
	switch c.Output {
	case "existing":
		write("out", local)
	case "same":
		out = in
	case "dir":
		out = d
	case "noparent":
		out = filepath.Join(dir, "nowhere", "out")
	case "full":
		out = "/dev/full"
	}
	w := srv()
	caseNo++
	w.mu.Lock()
	w.c, w.ref, w.path = c, ref, "/"+strconv.Itoa(caseNo)
	w.mu.Unlock()
	switch c.Source {
	case "path":
		source = write("ref", ref)
	case "short":
		source = write("ref", ref[:len(ref)/2])
	case "wrong":
		source = write("ref", bytes.Repeat([]byte{3}, len(ref)))
	case "dir":
		source = d
	case "url", "404", "cut", "404 page", "500 page", "whole", "gzip", "long":
		source = w.base + w.path
	}
	sum, err := e2e.Summary(ref, c.BS)
	if err != nil {
		return vh.Failf("%v", err)
	}
	if sum.FileSize+int64(c.Count*c.BS) > 0 {
		sum.FileSize += int64(c.Count * c.BS)
	}
	gosync.DefaultConcurrency = c.Conc

	var rs *gosync.RSync
	var makeErr, patchErr, closeErr error
	if !vh.RealTime(func() {
		if rs, makeErr = gosync.MakeRSync(in, source, out, sum); makeErr != nil {
			return
		}
		for i := 0; i < c.Times; i++ {
			patchErr = rs.Patch()
		}
		closeErr = rs.Close()
	}) {
		return vh.Failf("patching files does not end")
	}
	ctx := fmt.Sprintf(" (input %s, source %s, output %s; patched %d times; errors: %v; %v; %v)", c.Input, c.Source, c.Output, c.Times, makeErr, patchErr, closeErr)
	what := "after closing"
	if makeErr != nil {
		what = "after setting up has failed"
	}
	if b := quiet(); b != nil {
		return vh.Failf("%s, this still runs: %s%s", what, strings.Join(b, ", "), ctx)
	}
	if o := open(dir, earlierFiles); len(o) > 0 {
		return vh.Failf("%s, these files are open: %s%s", what, strings.Join(o, ", "), ctx)
	}
	switch {
	case makeErr != nil:
		r.Class("could not be set up")
	case c.Times == 0:
		r.Class("never run")
	case patchErr != nil:
		r.Class("failed")
		r.ClassIf(errors.Is(patchErr, os.ErrClosed), "file closed early")
	case closeErr != nil:
		r.Class("close failed")
	default:
		r.Class("success")
	}
	r.Class("source " + c.Source)
	r.Class("output " + c.Output)
	r.NonTrivial()
	return nil
}

// in memory: nothing of a patch keeps running once it has returned
type mc struct {
	P      e2e.Case `json:"p"`
	ReadAt int      `json:"readAt,omitempty"` // operations that fail from the n-th on; 0: none
	Write  int      `json:"write,omitempty"`  // the output fails after so many bytes, 0: never
	Kind   int      `json:"kind,omitempty"`
}

func genMem(t *rapid.T) mc {
	c := mc{P: e2e.Gen(t, 1, 24, 200)}
	c.P.Delay = nil
	c.Kind = gen.ErrKind(t)
	switch rapid.IntRange(0, 3).Draw(t, "fault") {
	case 0:
		c.ReadAt = 1 + rapid.IntRange(0, 6).Draw(t, "readAt")
	case 1:
		c.Write = 1 + gen.Pos(t, 100, "write")
	}
	return c
}

type limited struct {
	bytes.Buffer
	n   int
	err error
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 && l.Len()+len(p) > l.n {
		return 0, l.err
	}
	return l.Buffer.Write(p)
}

func runMem(c mc, r *vh.Rec) error {
	ref, local := c.P.Contents()
	sum, err := e2e.Summary(ref, c.P.BS)
	if err != nil {
		return vh.Failf("%v", err)
	}
	src := c.P.NewSource(&e2e.Requester{Data: ref}, sum)
	var mu sync.Mutex
	n := 0
	lf := &e2e.LocalFile{Reader: bytes.NewReader(local), Short: c.P.Short, OnReadAt: func(int64, int) error {
		mu.Lock()
		defer mu.Unlock()
		if n++; c.ReadAt > 0 && n >= c.ReadAt {
			return gen.Err(c.Kind)
		}
		return nil
	}}
	out := &limited{n: c.Write, err: gen.Err(c.Kind)}
	if !vh.RealTime(func() {
		err = e2e.Run(c.P, lf, src, sum, out)
		// what was requested before a failure may have to be taken first
		for done := false; !done; {
			select {
			case <-src.GetResultChannel():
			case <-src.EncounteredError():
			default:
				done = true
			}
		}
		src.Close()
	}) {
		return vh.Failf("patching does not end")
	}
	if b := quiet(); b != nil {
		return vh.Failf("after patching (error: %v), this still runs: %s", err, strings.Join(b, ", "))
	}
	r.ClassIf(c.ReadAt > 0 && n >= c.ReadAt, "local reads fail")
	r.ClassIf(err != nil, "failed")
	r.ClassIf(err == nil, "success")
	if len(ref) > 0 && len(local) >= c.P.BS {
		r.NonTrivial()
	}
	return nil
}

var check = &vh.Check{
	ID: "C25",
	Parts: []*vh.Part{
		vh.NewPart("files", "patches by file names: input present, missing or a directory; source a file (right, short, wrong, missing, a directory) or a URL (working, missing, cut off, with large error pages, the whole file, or too much); output new, existing, the input, a directory, without parent or a full device; index right or of the wrong size; patched never, once or twice, then closed; every case is non-trivial", 800, 30000, false, genCase, run),
		vh.NewPart("memory", "patches of generated contents with failing local reads or output, the source closed afterwards; non-trivial: reference not empty, local file of at least one block", 1500, 60000, false, genMem, runMem),
	},
	Assumptions: []string{
		"idle connections kept by Go's default HTTP transport belong to it, not to the patch",
		"five seconds are enough for what has ended to be gone",
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
