package c18

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/tlsweb"
	"verif/vh"
)

type tc struct {
	BS    int       `json:"bs"`
	Conc  int       `json:"conc"`
	Ref   []gen.Seg `json:"ref"`
	Local []gen.Seg `json:"local"`
	// new, existing, same, symout (output links to input), symin, hardlink, dangling, twin
	Mode  string    `json:"mode"`
	Old   []gen.Seg `json:"old,omitempty"`   // previous content of the output
	Paths int       `json:"paths,omitempty"` // how the paths are written
	Src   string    `json:"src,omitempty"`   // "" (http), https, path
	Caps  bool      `json:"caps,omitempty"`  // the scheme of the url in capitals
	Over  string    `json:"over,omitempty"`  // the output is the source itself: same, sym, hard
	Sum   string    `json:"sum,omitempty"`   // default strong checksum
	Fault string    `json:"fault,omitempty"`
	At    int       `json:"at,omitempty"` // which request fails
	By    int       `json:"by,omitempty"`
	Again int       `json:"again,omitempty"` // further calls of Patch
}

var modes = []string{"new", "existing", "existing", "same", "same", "symout", "symin", "hardlink", "dangling", "twin"}
var faults = []string{"404", "corrupt", "cut", "200", "drop", "count", "nocwd", "outdir", "noparent", "noinput", "inputdir", "devfull", "gone", "targetdir", "unusable"}

func genCase(minBS, maxBS, maxLen int, faulty bool) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS), Conc: rapid.SampledFrom([]int{1, 2, 3, 5}).Draw(t, "conc")}
		c.Ref = gen.Content(t, c.BS, maxLen)
		ref := gen.Build(c.Ref, nil)
		c.Local = gen.Edited(t, c.BS, len(ref), maxLen)
		c.Mode = rapid.SampledFrom(modes).Draw(t, "mode")
		if c.Mode == "existing" {
			c.Old = gen.Edited(t, c.BS, len(ref), 2*maxLen)
		}
		c.Paths = rapid.IntRange(0, 3).Draw(t, "paths")
		c.Src = rapid.SampledFrom([]string{"", "", "https", "path"}).Draw(t, "source")
		c.Caps = rapid.IntRange(0, 3).Draw(t, "caps") == 0
		if c.Src == "path" && c.Mode == "existing" && rapid.Bool().Draw(t, "over") {
			c.Over = rapid.SampledFrom([]string{"same", "sym", "hard"}).Draw(t, "which")
		}
		c.Sum = rapid.SampledFrom(e2e.Sums).Draw(t, "sum")
		if rapid.IntRange(0, 5).Draw(t, "repeat") == 0 {
			c.Again = rapid.IntRange(1, 2).Draw(t, "again")
		}
		if faulty {
			c.Fault = rapid.SampledFrom(faults).Draw(t, "fault")
			if c.Fault != "count" {
				c.Over = ""
			}
			c.At = rapid.IntRange(0, 2).Draw(t, "at")
			c.By = rapid.IntRange(0, 40).Draw(t, "by")
			switch c.Fault {
			case "404", "corrupt", "cut", "200", "drop", "count":
				if c.Src == "path" && c.Fault != "count" {
					c.Src = ""
				}
				if rapid.IntRange(0, 3).Draw(t, "inPlace") > 0 {
					c.Mode = rapid.SampledFrom([]string{"same", "symout", "symin", "hardlink"}).Draw(t, "mode")
				}
			}
		}
		return c
	}
}

// web serves the reference of the current case.
type web struct {
	mu   sync.Mutex
	base string
	tls  string
	c    tc
	ref  []byte
	n    int
	hit  bool
	path string
}

var srv = sync.OnceValue(func() *web {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	w := &web{base: "http://" + l.Addr().String()}
	go http.Serve(l, w)
	w.tls, _ = tlsweb.New(w)
	return w
})

func (w *web) ServeHTTP(rw http.ResponseWriter, rq *http.Request) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if rq.URL.Path != w.path {
		rw.WriteHeader(500) // a request of an earlier case
		return
	}
	n := w.n
	w.n++
	bad := w.c.Fault != "" && n >= w.c.At
	var a, b int
	fmt.Sscanf(rq.Header.Get("Range"), "bytes=%d-%d", &a, &b)
	a, b = max(0, a), min(b+1, len(w.ref))
	if a >= b {
		rw.WriteHeader(416)
		return
	}
	data := append([]byte{}, w.ref[a:b]...)
	if bad {
		switch w.c.Fault {
		case "404":
			w.hit = true
			rw.WriteHeader(404)
			return
		case "200":
			w.hit = true
			rw.Write(w.ref)
			return
		case "corrupt":
			w.hit = true
			data[w.c.By%len(data)] ^= 0x10
		case "cut", "drop":
			w.hit = true
			if w.c.Fault == "cut" {
				rw.Header().Set("Content-Length", strconv.Itoa(len(data)))
				rw.WriteHeader(206)
				rw.Write(data[:w.c.By%len(data)])
			}
			panic(http.ErrAbortHandler)
		}
	}
	rw.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b-1, len(w.ref)))
	rw.Header().Set("Content-Length", strconv.Itoa(len(data)))
	rw.WriteHeader(206)
	rw.Write(data)
}

// outcome of the calls
type result struct {
	makeErr, patchErr, closeErr error
	beforeClose                 []byte
}

func read(p string) []byte {
	if t, err := filepath.EvalSymlinks(p); err == nil && strings.HasPrefix(t, "/dev/") {
		return nil // endless
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	return append([]byte{}, b...)
}

func list(dir string) string {
	es, err := os.ReadDir(dir)
	vh.Must(err)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

var caseNo int

func run(c tc, r *vh.Rec) error {
	defer e2e.WithSum(c.Sum)()
	home, err := os.Getwd()
	vh.Must(err)
	dir, err := os.MkdirTemp(home, "case")
	vh.Must(err)
	defer func() {
		vh.Must(os.Chdir(home))
		vh.Must(os.RemoveAll(dir))
	}()
	vh.Must(os.Chdir(dir))
	vh.Must(os.Mkdir("data", 0o755))
	vh.Must(os.Mkdir("work", 0o755))
	vh.Must(os.Chdir("work")) // temporary files are made in the working directory

	ref := gen.Build(c.Ref, nil)
	local := gen.Build(c.Local, ref)
	old := gen.Build(c.Old, ref)
	d := filepath.Join(dir, "data")
	in, out := filepath.Join(d, "in"), filepath.Join(d, "out")
	inPlace := true
	src := filepath.Join(dir, "source")
	if c.Src == "path" {
		vh.Must(os.WriteFile(src, ref, 0o644))
	}
	write := func(p string, b []byte) { vh.Must(os.WriteFile(p, b, 0o644)) }
	switch c.Mode {
	case "dangling": // a link to a file that does not exist yet
		inPlace = false
		write(in, local)
		vh.Must(os.Symlink("target", out))
	case "twin": // another file that looks the same from outside
		inPlace = false
		write(in, local)
		vh.Must(os.Mkdir(filepath.Join(dir, "twin"), 0o755))
		out = filepath.Join(dir, "twin", "in")
		write(out, gen.Expand(uint64(len(local)), len(local)))
		when := time.Unix(1e9, 0)
		vh.Must(os.Chtimes(in, when, when))
		vh.Must(os.Chtimes(out, when, when))
	case "new", "existing":
		inPlace = false
		write(in, local)
		if c.Mode == "existing" {
			switch c.Over {
			case "":
				write(out, old)
			case "same":
				out = src
			case "sym":
				vh.Must(os.Symlink("../source", out))
			case "hard":
				vh.Must(os.Link(src, out))
			}
		}
	case "same":
		write(in, local)
		out = in
	case "symout":
		write(in, local)
		vh.Must(os.Symlink("in", out))
	case "symin":
		write(out, local)
		vh.Must(os.Symlink(out, in))
	case "hardlink":
		write(in, local)
		vh.Must(os.Link(in, out))
	}
	wantFail := "" // which call must fail
	switch c.Fault {
	case "outdir":
		inPlace = false
		out = filepath.Join(d, "a directory")
		vh.Must(os.Mkdir(out, 0o755))
		if c.Mode == "symin" {
			in = filepath.Join(d, "out")
		}
		wantFail = "make"
	case "noparent":
		inPlace = false
		out = filepath.Join(d, "nowhere", "out")
		wantFail = "make"
	case "noinput":
		in = filepath.Join(d, "missing")
		inPlace = false
		wantFail = "make"
	case "inputdir":
		in = filepath.Join(d, "a directory")
		inPlace = false
		vh.Must(os.Mkdir(in, 0o755))
		// everything may still be downloaded, so success is possible
	case "unusable": // a path that exists in no sense but is not just missing
		inPlace = false
		vh.Must(os.Symlink("loop", filepath.Join(d, "loop")))
		vh.Must(os.WriteFile(filepath.Join(d, "file"), nil, 0o644))
		bad := []string{filepath.Join(d, "file", "x"), filepath.Join(d, "loop"), filepath.Join(d, strings.Repeat("x", 300)), filepath.Join(d, "loop", "x")}[c.By%4]
		switch c.At {
		case 0:
			in = bad
		case 1:
			out = bad
		case 2:
			in, out = bad, bad
		}
		wantFail = "make"
	case "devfull":
		if len(ref) == 0 {
			return nil
		}
		vh.Must(os.Symlink("/dev/full", filepath.Join(d, "full")))
		in = filepath.Join(d, "full")
		out = in
		if c.By%2 == 0 {
			out = "/dev/full"
		}
		inPlace = true
		wantFail = "close"
	case "gone", "targetdir":
		if inPlace {
			wantFail = "close"
		}
	case "nocwd":
		gone := filepath.Join(dir, "gone")
		vh.Must(os.Mkdir(gone, 0o755))
		vh.Must(os.Chdir(gone))
		vh.Must(os.Remove(gone)) // there is no place for temporary files
	}
	show := func(p string) string {
		if c.Fault == "nocwd" {
			return p
		}
		switch c.Paths {
		case 1:
			rel, err := filepath.Rel(filepath.Join(dir, "work"), p)
			if err == nil && strings.HasPrefix(p, dir) {
				return rel
			}
		case 2:
			if strings.HasPrefix(p, d+"/") {
				return d + "/../data/./" + strings.TrimPrefix(p, d+"/")
			}
		}
		return p
	}
	inName, outName := show(in), show(out)
	if c.Paths == 3 { // one relative, one absolute
		c.Paths = 1
		inName = show(in)
	}

	sum, err := e2e.Summary(ref, c.BS)
	if err != nil {
		return vh.Failf("index of a readable file failed: %v", err)
	}
	if c.Fault == "count" { // an index that does not belong to the reference
		sum.FileSize += int64(c.By%2*2-1) * int64(c.BS)
		if sum.FileSize < 0 {
			return nil
		}
	}
	w := srv()
	source := w.base
	if c.Src == "https" {
		source = w.tls
	}
	caseNo++
	if i := strings.Index(source, ":"); c.Caps && i > 0 {
		source = strings.ToUpper(source[:i]) + source[i:]
	}
	source += "/" + strconv.Itoa(caseNo)
	if c.Src == "path" {
		source = show(src)
	}
	w.mu.Lock()
	w.c, w.ref, w.n, w.hit, w.path = c, ref, 0, false, "/"+strconv.Itoa(caseNo)
	w.mu.Unlock()

	// what the names refer to
	for _, n := range [][3]string{{inName, outName, map[bool]string{true: "t"}[inPlace]}, {outName, inName, map[bool]string{true: "t"}[inPlace]}, {inName, inName, "x"}, {outName, outName, "x"}} {
		_, e1 := os.Stat(n[0])
		_, e2 := os.Stat(n[1])
		want := n[2] == "t"
		switch {
		case e1 != nil || e2 != nil:
			want = false
		case n[2] == "x":
			want = true
		}
		got, err := gosync.IsSameFile(n[0], n[1])
		if c.Fault == "unusable" && err != nil && !got && !want {
			continue
		}
		if err != nil || got != want {
			return vh.Failf("IsSameFile(%q, %q) = %v, %v, want %v", n[0], n[1], got, err, want)
		}
	}
	before := read(out)
	gosync.DefaultConcurrency = c.Conc
	var res result
	var rs *gosync.RSync
	recovered := false
	if !vh.RealTime(func() {
		rs, res.makeErr = gosync.MakeRSync(inName, source, outName, sum)
		if res.makeErr != nil {
			return
		}
		res.patchErr = rs.Patch()
		for i := 0; i < c.Again; i++ {
			failed := res.patchErr != nil
			res.patchErr = rs.Patch()
			if res.patchErr == nil && failed {
				recovered = true
			}
		}
	}) {
		return vh.Failf("patching files does not end")
	}
	w.mu.Lock()
	hit := w.hit
	w.mu.Unlock()
	patched := res.makeErr == nil && res.patchErr == nil
	r.ClassIf(hit, "server fault "+c.Fault)
	r.ClassIf(patched && c.Again > 0, "patched again")
	r.ClassIf(recovered, "success after a failure")
	if c.Src == "path" && !bytes.Equal(read(src), ref) {
		return vh.Failf("the source was changed: %v, %v", res.makeErr, res.patchErr)
	}
	r.ClassIf(c.Src != "" && patched, "source "+c.Src)
	r.ClassIf(c.Over != "" && out != in && patched, "output is the source")

	if inPlace && c.Fault != "devfull" && !bytes.Equal(read(out), before) && !patched {
		return vh.Failf("patching in place failed (%v, %v) and changed the target: %s", res.makeErr, res.patchErr, e2e.Diff(read(out), before))
	}
	if patched && (c.Fault == "gone" || c.Fault == "targetdir") && inPlace {
		vh.Must(os.RemoveAll(d)) // the place to copy to is gone
		if c.Fault == "targetdir" {
			vh.Must(os.MkdirAll(out, 0o755))
		}
	}
	if res.makeErr == nil {
		if !vh.RealTime(func() { res.closeErr = rs.Close() }) {
			return vh.Failf("closing does not end")
		}
	}
	if c.Src == "path" && !bytes.Equal(read(src), ref) {
		return vh.Failf("the source was changed by closing: %v", res.closeErr)
	}
	failed := func() string {
		switch {
		case res.makeErr != nil:
			return "make"
		case res.patchErr != nil:
			return "patch"
		case res.closeErr != nil:
			return "close"
		}
		return ""
	}()
	if wantFail != "" {
		r.Class("must fail: " + c.Fault)
		r.NonTrivial()
		if failed == "" {
			return vh.Failf("no error although %s must fail because of %q", wantFail, c.Fault)
		}
		if wantFail == "close" && failed != "close" && c.Fault != "devfull" {
			return vh.Failf("%s failed, expected only close to fail: %v %v", failed, res.makeErr, res.patchErr)
		}
	}
	if failed == "" {
		if got := read(out); !bytes.Equal(got, ref) {
			return vh.Failf("success, but the output file is wrong (mode %s, %d bytes before): %s", c.Mode, len(before), e2e.Diff(got, ref))
		}
		if !inPlace && c.Fault != "inputdir" && !bytes.Equal(read(in), local) {
			return vh.Failf("the input file was changed: %s", e2e.Diff(read(in), local))
		}
		if c.Fault != "nocwd" {
			if l := list(filepath.Join(dir, "work")); l != "" {
				return vh.Failf("files remain in the working directory: %s", l)
			}
		}
		want := map[string]string{"new": "in out", "existing": "in out", "same": "in", "symout": "in out", "symin": "in out", "hardlink": "in out", "dangling": "in out target", "twin": "in"}[c.Mode]
		if c.Over == "same" {
			want = "in"
		}
		if l := list(d); c.Fault == "" && l != want {
			return vh.Failf("files next to the output: %s, want %s", l, want)
		}
		r.Class("success " + c.Mode)
		r.ClassIf(c.Sum != "" && c.Sum != "md5", "other strong checksum")
		r.ClassIf(c.Mode == "existing" && len(before) > len(ref), "existing output was longer")
		if len(ref) > 0 && len(local) > 0 {
			r.NonTrivial()
		}
		return nil
	}
	if failed == "close" && wantFail == "close" {
		work := filepath.Join(dir, "work")
		if l := list(work); l == "" || strings.Contains(l, " ") || !bytes.Equal(read(filepath.Join(work, l)), ref) {
			return vh.Failf("the result could not be copied into place (%v) and is lost: the working directory has %q", res.closeErr, l)
		}
	}
	if failed != "close" && c.Fault != "nocwd" {
		if l := list(filepath.Join(dir, "work")); l != "" {
			return vh.Failf("%s failed and files remain in the working directory: %s", failed, l)
		}
	}
	if wantFail == "" {
		if !hit && c.Fault != "count" && c.Fault != "inputdir" && c.Again == 0 && !(c.Fault == "nocwd" && inPlace) {
			return vh.Failf("failed without cause: %v %v %v", res.makeErr, res.patchErr, res.closeErr)
		}
		if inPlace {
			if got := read(out); !bytes.Equal(got, before) {
				return vh.Failf("patching in place failed (%v), but closing it changed the target: %s", res.patchErr, e2e.Diff(got, before))
			}
			r.Class("failed in place: target intact")
		} else if c.Fault != "inputdir" && !bytes.Equal(read(in), local) {
			return vh.Failf("the input file was changed: %s", e2e.Diff(read(in), local))
		}
		r.NonTrivial()
	}
	return nil
}

const rule = "reference and local contents as in C01 in real files; output new, existing with other content, or the input itself by the same path, a symbolic link either way or a hard link, a link to nothing, or another file of the same name, size and time; relative, absolute and redundant paths; a loopback web server (http or https) or a local file holds the reference"

var check = &vh.Check{
	ID: "C18",
	Parts: []*vh.Part{
		vh.NewPart("success", rule+"; non-trivial: reference and local file not empty", 1200, 40000, false, genCase(1, 24, 200, false), run),
		vh.NewPart("success-large", rule+"; up to 20000 bytes", 100, 4000, false, genCase(60, 900, 20000, false), run),
		vh.NewPart("faults", rule+"; and a fault: server errors, corrupt or cut responses, an index of the wrong size, missing input, output directory or parent, no working directory for the temporary file, a target that cannot be written or is gone when copying into place; non-trivial: something failed or content not empty", 2000, 60000, false, genCase(1, 24, 200, true), run),
	},
	Procs: 4,
	Assumptions: []string{
		"runs as root, so permission failures are represented by missing and wrong kinds of files and /dev/full",
		"the copy into place is not atomic and a crash during it is not covered",
	},
}

func TestMain(m *testing.M) {
	http.DefaultTransport.(*http.Transport).IdleConnTimeout = time.Hour
	vh.Main(m, check)
}
func TestCheck(t *testing.T) { vh.RunChild(t) }
