// Package vh is the driver shared by all checks: it runs generated-input
// properties with pgregory.net/rapid in several deterministic shards, records
// what was generated, survives crashes and runaway loops of the code under
// test, shrinks failures and writes replayable case files.
//
// A check is a test binary whose TestMain calls Main. Run without VH_CHILD it
// is the parent: it starts the shards as child processes of itself, merges
// their statistics, writes the evidence file and prints the verdict.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what one case exercised.
type Rec struct {
	classes    map[string]struct{}
	nontrivial bool
	t          *testing.T
	known      []string
	excluded   bool
}

// NonTrivial marks the case as non-trivial by the part's stated rule.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// Class labels the case for the distribution in the evidence file.
func (r *Rec) Class(name string) { r.classes[name] = struct{}{} }

// ClassIf labels the case when cond holds.
func (r *Rec) ClassIf(cond bool, name string) {
	if cond {
		r.Class(name)
	}
}

// Fail is a property violation. Key, when set, identifies a specific input or
// call site and is looked up in the known-findings file.
type Fail struct {
	Msg string
	Key string
}

func (f *Fail) Error() string { return f.Msg }

// Failf builds a violation.
func Failf(format string, args ...any) error {
	return &Fail{Msg: fmt.Sprintf(format, args...)}
}

// KnownFailf builds a violation that carries a known-findings key.
func KnownFailf(key, format string, args ...any) error {
	return &Fail{Key: key, Msg: fmt.Sprintf(format, args...)}
}

// Inconclusive aborts the whole check with an error exit (not a violation).
type Inconclusive struct{ Msg string }

func (i Inconclusive) String() string { return i.Msg }

// Must panics with Inconclusive if err is not nil: for failures of the harness
// environment, never of the code under test.
func Must(err error) {
	if err != nil {
		panic(Inconclusive{"environment: " + err.Error()})
	}
}

// Part is one generated property. Several parts can make up one check.
type Part struct {
	Name string
	Rule string // how cases are made, what makes one non-trivial

	Quick    int // cases per shard, quick tier
	Thorough int // cases per shard, thorough tier

	Bubble bool // run each case in a testing/synctest bubble

	Gen    func(t *rapid.T) any                   // returns the case (JSON-able)
	Decode func(raw json.RawMessage) (any, error) // inverse of JSON encoding
	Run    func(c any, r *Rec) error
}

// NewPart builds a Part for the case type C.
func NewPart[C any](name, rule string, quick, thorough int, bubble bool, gen func(t *rapid.T) C, run func(c C, r *Rec) error) *Part {
	return &Part{
		Name: name, Rule: rule, Quick: quick, Thorough: thorough, Bubble: bubble,
		Gen: func(t *rapid.T) any { return gen(t) },
		Decode: func(raw json.RawMessage) (any, error) {
			var c C
			err := json.Unmarshal(raw, &c)
			return c, err
		},
		Run: func(c any, r *Rec) error { return run(c.(C), r) },
	}
}

// Check is a whole property check.
type Check struct {
	ID          string
	Parts       []*Part
	Shards      int // default 8
	Procs       int // GOMAXPROCS of each shard, default 2
	Assumptions []string
	// CaseCPU is the processor time (seconds) after which one case counts as a
	// runaway loop; default 60. Cases normally take milliseconds.
	CaseCPU int
	// OneShot, if set, runs once in shard 0 before the parts (known findings).
	OneShot func(r *Rec) error
}

// Replay is the format of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message,omitempty"`
	Seed     uint64          `json:"seed,omitempty"`
	Shrunk   bool            `json:"shrunk"`
}

var current *testing.T

// Main is called from TestMain.
func Main(m *testing.M, c *Check) {
	if c.Shards == 0 {
		c.Shards = 8
	}
	if c.Procs == 0 {
		c.Procs = 2
	}
	if c.CaseCPU == 0 {
		c.CaseCPU = 60
	}
	if len(c.Parts) == 0 {
		fmt.Println("no parts")
		os.Exit(2)
	}
	switch os.Getenv("VH_CHILD") {
	case "":
		os.Exit(parent(c))
	default:
		theCheck = c
		os.Exit(m.Run())
	}
}

var theCheck *Check

// RunChild is called from the single Test function of a check.
func RunChild(t *testing.T) {
	if theCheck == nil {
		t.Skip("run through TestMain")
	}
	current = t
	child(t, theCheck)
}

func encodeCase(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(Inconclusive{"case not encodable: " + err.Error()})
	}
	return b
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// outcome of running one case in-process
type outcome struct {
	err error
	rec *Rec
}

// running is the part and start time of the case being executed, for the monitor
var running atomic.Pointer[runningCase]

type runningCase struct {
	part     string
	startCPU time.Duration
	limit    time.Duration
}

// runCase executes one case, turning panics of the calling goroutine and
// deadlocks of the bubble into violations.
func runCase(t *testing.T, c *Check, p *Part, cs any) (out outcome) {
	rec := &Rec{classes: map[string]struct{}{}, t: t}
	out.rec = rec
	running.Store(&runningCase{part: p.Name, startCPU: cpuTime(), limit: time.Duration(c.CaseCPU) * time.Second})
	defer running.Store(nil)

	body := func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(Inconclusive); ok {
					out.err = asInconclusive(v)
					return
				}
				out.err = Failf("panic: %v\n%s", v, trimStack(debug.Stack()))
			}
		}()
		out.err = p.Run(cs, rec)
	}
	if !p.Bubble {
		body()
		return
	}
	func() {
		defer func() {
			if v := recover(); v != nil {
				msg := fmt.Sprint(v)
				if out.err == nil {
					if strings.Contains(msg, "main bubble goroutine has exited but blocked goroutines remain") {
						// goroutines of the code under test that outlive the
						// case: only a violation if the part says so itself.
						rec.Class("goroutines left blocked")
						return
					}
					out.err = Failf("deadlock: %v", msg)
				}
			}
		}()
		synctest.Test(t, func(*testing.T) { body() })
	}()
	return
}

type inconclusiveErr struct{ msg string }

func (i *inconclusiveErr) Error() string { return i.msg }

func asInconclusive(v any) error { return &inconclusiveErr{v.(Inconclusive).Msg} }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func sortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Guard bounds the number of times f-like callbacks may be called after a
// fault, so that a spinning loop in a bubble becomes a detectable deadlock: the
// caller blocks forever once the budget is gone.
type Guard struct{ n atomic.Int64 }

// Tick blocks forever after max calls.
func (g *Guard) Tick(max int64) {
	if g.n.Add(1) > max {
		select {}
	}
}

// Stuck reports whether the budget was exhausted.
func (g *Guard) Stuck(max int64) bool { return g.n.Load() > max }

// InBubble waits for done inside a synctest bubble; virtual time only advances
// when every goroutine is blocked, so a timeout is exactly a deadlock.
func InBubble(done <-chan struct{}) bool {
	select {
	case <-done:
		return true
	case <-time.After(1000000 * time.Hour):
		return false
	}
}

// RealTime runs f and reports false if it did not return although this process
// was demonstrably being scheduled for the whole time: for code that uses the
// network and cannot run in a bubble. f normally takes milliseconds.
func RealTime(f func()) bool {
	done := make(chan struct{})
	var pv any
	go func() {
		defer close(done)
		defer func() { pv = recover() }()
		f()
	}()
	beats := 0
	tick := time.NewTicker(10 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			if pv != nil {
				panic(pv)
			}
			return true
		case <-tick.C:
			// 60 s worth of actual scheduling, however long that takes
			if beats++; beats > 6000 {
				return false
			}
		}
	}
}
