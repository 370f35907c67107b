package vh

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	exitRunaway = 97
	exitMemory  = 98
	exitInconcl = 96
	exitRace    = 66
)

// childReport is what a shard hands to the parent.
type childReport struct {
	Parts    map[string]*partStats `json:"parts"`
	Failure  *Replay               `json:"failure,omitempty"`
	Known    []string              `json:"known,omitempty"`
	Inconcl  string                `json:"inconclusive,omitempty"`
	Finished bool                  `json:"finished"`
}

type partStats struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Excluded    int               `json:"excluded"`
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// monitor ends the process when a single case burns an absurd amount of
// processor time or memory; the parent then treats the case as a runaway.
func monitor() {
	for {
		time.Sleep(50 * time.Millisecond)
		if r := running.Load(); r != nil && cpuTime()-r.startCPU > r.limit {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			fmt.Fprintf(os.Stderr, "\nvh: runaway case: more than %v of processor time\n", r.limit)
			os.Exit(exitRunaway)
		}
		if rss() > 3<<30 {
			fmt.Fprintln(os.Stderr, "vh: runaway case: more than 3 GB resident")
			os.Exit(exitMemory)
		}
	}
}

// tb lets rapid.Check run without its own log output.
type tb struct {
	name   string
	failed bool
	log    []string
}

type failNow struct{}

func (b *tb) Helper()      {}
func (b *tb) Name() string { return b.name }
func (b *tb) add(s string) {
	if len(b.log) < 200 {
		b.log = append(b.log, s)
	}
}
func (b *tb) Logf(f string, a ...any)   { b.add(fmt.Sprintf(f, a...)) }
func (b *tb) Log(a ...any)              { b.add(fmt.Sprintln(a...)) }
func (b *tb) Skipf(f string, a ...any)  { panic("skip") }
func (b *tb) Skip(a ...any)             { panic("skip") }
func (b *tb) SkipNow()                  { panic("skip") }
func (b *tb) Errorf(f string, a ...any) { b.add(fmt.Sprintf(f, a...)); b.failed = true }
func (b *tb) Error(a ...any)            { b.add(fmt.Sprintln(a...)); b.failed = true }
func (b *tb) Fatalf(f string, a ...any) { b.Errorf(f, a...); panic(failNow{}) }
func (b *tb) Fatal(a ...any)            { b.Error(a...); panic(failNow{}) }
func (b *tb) FailNow()                  { b.failed = true; panic(failNow{}) }
func (b *tb) Fail()                     { b.failed = true }
func (b *tb) Failed() bool              { return b.failed }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func child(t *testing.T, c *Check) {
	dir := os.Getenv("VH_DIR")
	if mode := os.Getenv("VH_CHILD"); mode == "exec" {
		childExec(t, c)
		return
	}
	go monitor()
	shard, err := strconv.Atoi(os.Getenv("VH_CHILD"))
	if err != nil {
		panic(err)
	}
	ch := &childRun{t: t, c: c, dir: dir, shard: shard}
	ch.known = loadKnown(c.ID)
	ch.rep.Parts = map[string]*partStats{}
	ch.seen = map[uint64]struct{}{}
	ch.isolatePart = os.Getenv("VH_ISOLATE_PART")
	ch.isolateFrom, _ = strconv.Atoi(os.Getenv("VH_ISOLATE_FROM"))
	ch.journal, err = os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	if err != nil {
		panic(err)
	}
	base := seedOf(c.ID, shard)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrinkTime())

	if c.OneShot != nil && shard == 0 && ch.isolatePart == "" {
		rec := &Rec{classes: map[string]struct{}{}, t: t}
		if err := c.OneShot(rec); err != nil {
			var f *Fail
			if errors.As(err, &f) && f.Key != "" && ch.known[f.Key] {
				ch.rep.Known = append(ch.rep.Known, f.Key+": "+f.Msg)
			} else {
				ch.rep.Failure = &Replay{Property: c.ID, Part: "oneshot", Case: json.RawMessage("{}"), Message: err.Error(), Shrunk: true}
			}
		}
	}
	for pi, p := range c.Parts {
		if ch.rep.Failure != nil || ch.rep.Inconcl != "" {
			break
		}
		if ch.isolatePart != "" && ch.isolatePart != p.Name {
			continue
		}
		if only := os.Getenv("VH_PART"); only != "" && only != p.Name {
			continue
		}
		n := p.Quick
		if tier() == "thorough" {
			n = p.Thorough
		}
		if s := os.Getenv("VH_SCALE"); s != "" {
			f, _ := strconv.ParseFloat(s, 64)
			n = max(1, int(float64(n)*f))
		}
		if n == 0 {
			continue
		}
		seed := splitmix(base+uint64(pi)*1000003) | 1
		ch.runPart(p, n, seed)
	}
	ch.rep.Finished = true
	ch.write()
}

func shrinkTime() string {
	if s := os.Getenv("VH_SHRINKTIME"); s != "" {
		return s
	}
	return "15s"
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func verifSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 0, 64)
	if err != nil {
		return 1
	}
	return n
}

func seedOf(id string, shard int) uint64 {
	return splitmix(uint64(verifSeed())*0x9e3779b97f4a7c15 + hash64([]byte(id+"/"+tier())) + uint64(shard)*0x51ed270b)
}

type childRun struct {
	t           *testing.T
	c           *Check
	dir         string
	shard       int
	rep         childReport
	journal     *os.File
	seen        map[uint64]struct{}
	known       map[string]bool
	isolatePart string
	isolateFrom int
	mu          sync.Mutex
}

func (ch *childRun) write() {
	b, _ := json.Marshal(&ch.rep)
	tmp := filepath.Join(ch.dir, fmt.Sprintf("report.%d.tmp", ch.shard))
	os.WriteFile(tmp, b, 0o600)
	os.Rename(tmp, filepath.Join(ch.dir, fmt.Sprintf("report.%d", ch.shard)))
	// distinct hashes
	hb := make([]byte, 0, len(ch.seen)*8)
	for h := range ch.seen {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(filepath.Join(ch.dir, fmt.Sprintf("hashes.%d", ch.shard)), hb, 0o600)
}

// note records in the journal that case number n of the part is about to run,
// so that the parent knows what crashed.
func (ch *childRun) note(part string, n int, cs []byte) {
	hdr := fmt.Sprintf("%s %d %d\n", part, n, len(cs))
	buf := append([]byte(hdr), cs...)
	ch.journal.WriteAt(buf, 0)
}

func (ch *childRun) runPart(p *Part, n int, seed uint64) {
	st := &partStats{Classes: map[string]int{}}
	ch.rep.Parts[p.Name] = st
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))

	count := 0
	failed := false
	var deadline time.Time // for making the failing case smaller
	var last *Replay
	prop := func(t *rapid.T) {
		cs := p.Gen(t)
		raw := encodeCase(cs)
		idx := count
		if !failed {
			count++
		}
		// a step of rapid's search for a smaller case does not look at the time
		if failed && last != nil && time.Now().After(deadline) {
			if bytes.Equal(raw, last.Case) {
				t.Fatalf("property violated")
			}
			return
		}
		isolated := ch.isolatePart != ""
		if isolated && idx < ch.isolateFrom && !failed {
			return
		}
		// decode again: the case that runs is the case that is saved
		cs2, err := p.Decode(raw)
		if err != nil {
			panic(Inconclusive{"case does not decode: " + err.Error()})
		}
		var out outcome
		if isolated {
			out = ch.runIsolated(p, raw)
		} else {
			if !failed {
				ch.note(p.Name, idx, raw)
			}
			out = runCase(ch.t, ch.c, p, cs2)
		}
		if out.err != nil {
			var ic *inconclusiveErr
			if errors.As(out.err, &ic) {
				ch.rep.Inconcl = ic.msg
				failed = true
				t.Fatalf("inconclusive")
			}
			var f *Fail
			if errors.As(out.err, &f) && f.Key != "" && ch.known[f.Key] {
				st.Excluded++
				ch.noteKnown(f.Key)
				return
			}
			if !failed {
				d, _ := time.ParseDuration(shrinkTime())
				deadline = time.Now().Add(d)
			}
			failed = true
			last = &Replay{Property: ch.c.ID, Part: p.Name, Case: raw, Message: out.err.Error(), Seed: seed}
			// keep something on disk in case shrinking itself dies
			if ch.rep.Failure == nil {
				ch.rep.Failure = last
				ch.write()
				os.WriteFile(filepath.Join(ch.dir, fmt.Sprintf("failed.%d", ch.shard)), nil, 0o600)
			}
			t.Fatalf("property violated")
		}
		if failed {
			return
		}
		st.Evaluations++
		for k := range out.rec.classes {
			st.Classes[k]++
		}
		if out.rec.nontrivial {
			h := hash64(append([]byte(p.Name+"\x00"), raw...))
			if _, dup := ch.seen[h]; !dup {
				ch.seen[h] = struct{}{}
				st.NonTrivial++
				if len(st.Samples) < 2 && len(raw) < 1500 && st.NonTrivial%7 == 1 {
					st.Samples = append(st.Samples, raw)
				}
			}
		}
	}
	b := &tb{name: ch.c.ID + "/" + p.Name}
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(failNow); ok {
					return
				}
				if ic, ok := v.(Inconclusive); ok {
					ch.rep.Inconcl = ic.Msg
					return
				}
				panic(v)
			}
		}()
		rapid.Check(b, prop)
	}()
	if last != nil {
		last.Shrunk = true
		ch.rep.Failure = last
	} else if b.failed && ch.rep.Inconcl == "" {
		// rapid itself complained (for example too many discarded cases), or a
		// generator panicked: an error of the check
		ch.rep.Inconcl = "rapid: " + strings.Join(b.log, "\n")
	}
	if b.failed && ch.rep.Inconcl != "" {
		ch.rep.Failure = nil
	}
}

func (ch *childRun) noteKnown(key string) {
	for _, k := range ch.rep.Known {
		if k == key {
			return
		}
	}
	ch.rep.Known = append(ch.rep.Known, key)
}

// runIsolated runs the case in its own process, so that a crash or runaway is
// just another failing outcome and rapid can shrink it.
func (ch *childRun) runIsolated(p *Part, raw []byte) outcome {
	rec := &Rec{classes: map[string]struct{}{}}
	f := filepath.Join(ch.dir, fmt.Sprintf("isolated.%d.json", ch.shard))
	rp := Replay{Property: ch.c.ID, Part: p.Name, Case: raw}
	b, _ := json.Marshal(&rp)
	if err := os.WriteFile(f, b, 0o600); err != nil {
		return outcome{err: asInconclusive(Inconclusive{err.Error()}), rec: rec}
	}
	return outcome{err: execCase(ch.c, f, 10), rec: rec}
}

// execCase runs a replay file in a fresh process of this binary. It returns nil
// if the property held, a *Fail if it did not (including crashes, races and
// runaways), or an inconclusive error.
func execCase(c *Check, file string, cpuSeconds int) error {
	cmd := exec.Command(os.Args[0], "-test.run=^TestCheck$", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "VH_CHILD=exec", "VH_REPLAY="+file, "VH_CASECPU="+strconv.Itoa(cpuSeconds))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var sb limitBuf
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return asInconclusive(Inconclusive{err.Error()})
	}
	timer := time.AfterFunc(10*time.Minute, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	timer.Stop()
	if err == nil {
		return nil
	}
	out := sb.String()
	code := cmd.ProcessState.ExitCode()
	switch code {
	case 10:
		if i := strings.Index(out, "CASE-FAILED: "); i >= 0 {
			out = strings.SplitN(out[i+len("CASE-FAILED: "):], "\nCASE-END", 2)[0]
		}
		return Failf("%s", out)
	case exitInconcl:
		return asInconclusive(Inconclusive{out})
	case exitRunaway, exitMemory:
		return Failf("runaway: the case did not finish (processor time or memory exhausted)\n%s", tail(out, 3000))
	case exitRace:
		return Failf("data race\n%s", head(out, 6000))
	case 2: // Go runtime: panic or fatal error in some goroutine
		if strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") {
			return Failf("process crashed\n%s", head(out, 4000))
		}
	}
	return asInconclusive(Inconclusive{fmt.Sprintf("isolated case ended with %v\n%s", err, tail(out, 3000))})
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type limitBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 1<<20 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func (l *limitBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b)
}

// childExec runs the single case of a replay file.
func childExec(t *testing.T, c *Check) {
	if n, err := strconv.Atoi(os.Getenv("VH_CASECPU")); err == nil && n > 0 {
		c.CaseCPU = n
	}
	go monitor()
	b, err := os.ReadFile(os.Getenv("VH_REPLAY"))
	if err != nil {
		fmt.Println(err)
		os.Exit(exitInconcl)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		os.Exit(exitInconcl)
	}
	finish := func(err error) {
		if err == nil {
			os.Exit(0)
		}
		var ic *inconclusiveErr
		if errors.As(err, &ic) {
			fmt.Println(ic.msg)
			os.Exit(exitInconcl)
		}
		fmt.Printf("CASE-FAILED: %v\nCASE-END\n", err)
		os.Exit(10)
	}
	if rp.Part == "oneshot" {
		finish(c.OneShot(&Rec{classes: map[string]struct{}{}, t: t}))
	}
	for _, p := range c.Parts {
		if p.Name == rp.Part {
			cs, err := p.Decode(rp.Case)
			if err != nil {
				fmt.Println(err)
				os.Exit(exitInconcl)
			}
			finish(runCase(t, c, p, cs).err)
		}
	}
	fmt.Println("no such part:", rp.Part)
	os.Exit(exitInconcl)
}
