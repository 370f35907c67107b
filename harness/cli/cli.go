// Package cli runs the gosync command-line tool on generated files in a scratch
// directory, against a loopback web server.
package cli

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verif/tlsweb"
	"verif/vh"
)

// Exe is the tool under test, built by the check script.
func Exe() string {
	e := os.Getenv("VH_GOSYNC")
	if e == "" {
		panic(vh.Inconclusive{Msg: "VH_GOSYNC is not set"})
	}
	return e
}

// Result of one run of the tool.
type Result struct {
	Args   []string
	Code   int // exit status; 128+n when ended by signal n
	Stdout string
	Stderr string
	Hung   string // why the run was ended by the harness
}

func (r Result) String() string {
	s := fmt.Sprintf("gosync %q: exit status %d", r.Args, r.Code)
	if r.Hung != "" {
		s += " (" + r.Hung + ")"
	}
	if t := strings.TrimSpace(r.Stderr); t != "" {
		if len(t) > 700 {
			t = t[:700] + "..."
		}
		s += "; " + t
	}
	return s
}

// OK reports a successful end.
func (r Result) OK() bool { return r.Code == 0 && r.Hung == "" }

// Crashed reports a panic that was not turned into an error message.
func (r Result) Crashed() bool {
	return r.Code >= 128 || strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic: ") || strings.Contains(r.Stderr, "fatal error: "))
}

// affinity runs f with the current thread confined to n of its processors, so
// that a process started by f sees n processors.
func affinity(n int, f func()) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var all, some [128]uint64
	r, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, unsafe.Sizeof(all), uintptr(unsafe.Pointer(&all)))
	if e != 0 || r == 0 || n <= 0 {
		f()
		return
	}
	k := 0
	for i := 0; i < len(all)*64 && k < n; i++ {
		if all[i/64]&(1<<(i%64)) != 0 {
			some[i/64] |= 1 << (i % 64)
			k++
		}
	}
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(some), uintptr(unsafe.Pointer(&some))); e != 0 {
		f()
		return
	}
	f()
	syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(all), uintptr(unsafe.Pointer(&all)))
}

type limited struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if room := 1<<16 - l.b.Len(); room > 0 {
		l.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

// usage returns processor time in ticks and resident pages.
func usage(pid int) (ticks, pages int64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 22 {
		return 0, 0, false
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	p, _ := strconv.ParseInt(f[21], 10, 64)
	return u + s, p, true
}

// asleep reports that no thread of the process can run or waits for a disk.
func asleep(pid int) bool {
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	for _, t := range ts {
		b, err := os.ReadFile(t)
		if err != nil {
			return false
		}
		if f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:])); len(f) == 0 || f[0] != "S" {
			return false
		}
	}
	return len(ts) > 0
}

// Run runs the tool in dir, on at most cpus processors (0: all).
func Run(dir string, cpus int, args ...string) Result {
	return Options{CPUs: cpus}.Run(dir, args...)
}

// Options for running the tool.
type Options struct {
	CPUs    int           // number of processors (0: all)
	Seconds int64         // of processor time after which it counts as hung (default 60)
	Idle    int           // seconds without using the processor that count as hung; 0: 30
	Started func(pid int) // called when it has been started
	Nobody  bool          // as a user with no privileges
	Env     []string      // further environment variables
}

// Nobody is the user that Options.Nobody means.
const Nobody = 65534

// Reach lets any user pass through the directories from the one of the tool down to dir.
func Reach(dir string) {
	for top := filepath.Dir(Exe()); dir != top && strings.HasPrefix(dir, top); dir = filepath.Dir(dir) {
		vh.Must(os.Chmod(dir, 0o711))
	}
	vh.Must(os.Chmod(dir, 0o711))
}

// Run runs the tool in dir.
func (o Options) Run(dir string, args ...string) Result {
	if o.Seconds == 0 {
		o.Seconds = 60
	}
	if o.Idle == 0 {
		o.Idle = 30
	}
	cmd := exec.Command(Exe(), args...)
	cmd.Dir = dir
	// proxies must not be used for the loopback server
	web()
	cmd.Env = []string{"SSL_CERT_FILE=" + certFile, "PATH=" + os.Getenv("PATH"), "HOME=" + dir, "NO_PROXY=*", "TMPDIR=" + dir, "GOTRACEBACK=all"}
	cmd.Env = append(cmd.Env, o.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if o.Nobody {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: Nobody, Gid: Nobody}
	}
	var out, errb limited
	cmd.Stdout, cmd.Stderr = &out, &errb
	var err error
	affinity(o.CPUs, func() { err = cmd.Start() })
	vh.Must(err)
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	res := Result{Args: args}
	pid := cmd.Process.Pid
	if o.Started != nil {
		o.Started(pid)
	}
	last, idle := int64(-1), 0
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			t, pages, ok := usage(pid)
			if !ok {
				continue
			}
			if t == last && asleep(pid) {
				idle++
			} else {
				last, idle = t, 0
			}
			switch {
			case pages*4096 > 3<<30:
				res.Hung = "uses more than 3 GB of memory"
			case t > o.Seconds*100:
				res.Hung = fmt.Sprintf("used %d seconds of processor time", o.Seconds)
			case idle > o.Idle*4:
				res.Hung = "does nothing and does not end"
			}
			if res.Hung != "" {
				syscall.Kill(-pid, syscall.SIGKILL)
				<-done
				break loop
			}
		}
	}
	out.mu.Lock()
	errb.mu.Lock()
	defer out.mu.Unlock()
	defer errb.mu.Unlock()
	res.Stdout, res.Stderr = out.b.String(), errb.b.String()
	res.Code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		res.Code = 128 + int(ws.Signal())
	}
	return res
}

// Web is the loopback server. Documents are registered per case under a prefix.
type Web struct {
	Base string
	TLS  string
	mu   sync.Mutex
	docs map[string]*Doc
}

// Doc is one served document.
type Doc struct {
	Query    string // that requests must have
	User     string // with whose name and password
	Password string
	Redirect string // where the document is instead
	Data     []byte
	Fault    string // "", 404, 500, corrupt, cut, 200, drop, call
	At       int    // first faulty request
	By       int    // position of the fault
	N        int    // requests so far
	Hit      bool
	Call     func() // called for a faulty request, before it is dropped (call)
	Gate     func() // called before a request is looked at; may block
	Bytes    int
}

var web = sync.OnceValue(func() *Web {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	w := &Web{Base: "http://" + l.Addr().String(), docs: map[string]*Doc{}}
	go http.Serve(l, w)
	w.TLS, certFile = tlsweb.New(w)
	return w
})

var certFile string

var caseNo int

// Serve registers documents for the current case, forgetting earlier ones, and
// returns the base URL of the case.
func Serve(docs map[string]*Doc) string {
	w := web()
	w.mu.Lock()
	defer w.mu.Unlock()
	caseNo++
	p := "/" + strconv.Itoa(caseNo) + "/"
	w.docs = map[string]*Doc{}
	for n, d := range docs {
		w.docs[p+n] = d
	}
	return w.Base + p
}

// Also serves another document with those given to Serve last.
func Also(name string, d *Doc) {
	w := web()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.docs["/"+strconv.Itoa(caseNo)+"/"+name] = d
}

// Secure turns a URL made by Serve into one with https.
func Secure(u string) string {
	of := func(base string) string { return base[strings.Index(base, "//")+2:] }
	return strings.Replace(strings.Replace(u, "http:", "https:", 1), of(web().Base), of(web().TLS), 1)
}

// Requests reports how often a document was asked for and whether its fault
// was shown.
func Requests(d *Doc) (n int, hit bool) {
	w := web()
	w.mu.Lock()
	defer w.mu.Unlock()
	return d.N, d.Hit
}

func (w *Web) ServeHTTP(rw http.ResponseWriter, rq *http.Request) {
	w.mu.Lock()
	d := w.docs[rq.URL.Path]
	if d != nil && d.Gate != nil {
		w.mu.Unlock()
		d.Gate()
		w.mu.Lock()
	}
	defer w.mu.Unlock()
	if d == nil {
		rw.WriteHeader(404)
		return
	}
	if u, p, _ := rq.BasicAuth(); u != d.User || p != d.Password || rq.URL.RawQuery != d.Query {
		rw.WriteHeader(403)
		return
	}
	if d.Redirect != "" {
		rw.Header().Set("Location", d.Redirect)
		rw.WriteHeader(302)
		return
	}
	bad := d.Fault != "" && d.N >= d.At
	d.N++
	a, b := 0, len(d.Data)
	status := 200
	if h := rq.Header.Get("Range"); h != "" {
		if n, _ := fmt.Sscanf(h, "bytes=%d-%d", &a, &b); n != 2 || a < 0 {
			rw.WriteHeader(400)
			return
		}
		b = min(b+1, len(d.Data))
		if a >= b {
			rw.WriteHeader(416)
			return
		}
		status = 206
		rw.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b-1, len(d.Data)))
	}
	data := append([]byte{}, d.Data[a:b]...)
	if bad {
		d.Hit = true
		switch d.Fault {
		case "404", "500":
			rw.Header().Del("Content-Range")
			c, _ := strconv.Atoi(d.Fault)
			rw.WriteHeader(c)
			fmt.Fprintln(rw, "an error page that is not the document")
			return
		case "200":
			rw.Header().Del("Content-Range")
			rw.Write(d.Data)
			return
		case "corrupt":
			if len(data) > 0 {
				data[d.By%len(data)] ^= 0x10
			}
		case "call":
			d.Call()
			panic(http.ErrAbortHandler)
		case "drop":
			panic(http.ErrAbortHandler)
		case "cut":
			rw.Header().Set("Content-Length", strconv.Itoa(len(data)))
			rw.WriteHeader(status)
			if len(data) > 0 {
				rw.Write(data[:d.By%len(data)])
			}
			panic(http.ErrAbortHandler)
		}
	}
	d.Bytes += len(data)
	rw.Header().Set("Content-Length", strconv.Itoa(len(data)))
	rw.WriteHeader(status)
	rw.Write(data)
}

// Dir makes a scratch directory for one case.
func Dir() (dir string, done func()) {
	home, err := os.Getwd()
	vh.Must(err)
	dir, err = os.MkdirTemp(home, "case")
	vh.Must(err)
	return dir, func() { vh.Must(os.RemoveAll(dir)) }
}

// Write makes a file.
func Write(p string, b []byte) { vh.Must(os.WriteFile(p, b, 0o644)) }

// Read returns a file's content, nil if it cannot be read or is a device.
func Read(p string) []byte {
	if fi, err := os.Stat(p); err != nil || !fi.Mode().IsRegular() {
		return nil
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	return append([]byte{}, b...)
}

// List names the entries of dir.
func List(dir string) []string {
	es, err := os.ReadDir(dir)
	vh.Must(err)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

// IndexPath is where build puts the index of a file.
func IndexPath(file string) string {
	return strings.TrimSuffix(file, filepath.Ext(file)) + ".gosync"
}
