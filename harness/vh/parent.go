package vh

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// KnownFinding is one entry of /verif/known-findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Key      string `json:"key"`    // identifies the failing input, call site or history
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func root() string {
	if r := os.Getenv("VH_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func knownList(id string) []KnownFinding {
	b, err := os.ReadFile(filepath.Join(root(), "known-findings.json"))
	if err != nil {
		return nil
	}
	var all []KnownFinding
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Println("known-findings.json:", err)
		os.Exit(2)
	}
	var out []KnownFinding
	for _, k := range all {
		if k.Property == id && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func loadKnown(id string) map[string]bool {
	m := map[string]bool{}
	for _, k := range knownList(id) {
		m[k.Key] = true
	}
	return m
}

func parent(c *Check) int {
	start := time.Now()
	if f := os.Getenv("VH_REPLAY"); f != "" {
		err := execCase(c, f, c.CaseCPU)
		if err == nil {
			fmt.Printf("replay of %s: property %s held\n", f, c.ID)
			return 0
		}
		var ic *inconclusiveErr
		if errors.As(err, &ic) {
			fmt.Println("inconclusive:", ic.msg)
			return 2
		}
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, f)
		return 1
	}

	dir, err := os.MkdirTemp("", "vh-"+c.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)

	reports := make([]*childReport, c.Shards)
	errs := make([]error, c.Shards)
	var wg sync.WaitGroup
	procs := &procSet{m: map[int]int{}}
	for i := 0; i < c.Shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			reports[i], errs[i] = runShard(c, dir, i, procs)
			if reports[i] != nil && reports[i].Failure != nil {
				// one violation is enough: let the others stop
				procs.killOthers(i)
			}
		}(i)
	}
	wg.Wait()

	var failure *Replay
	inconcl := ""
	known := map[string]bool{}
	total := map[string]*partStats{}
	for i, r := range reports {
		if errs[i] != nil && !procs.wasKilled(i) && inconcl == "" {
			inconcl = errs[i].Error()
		}
		if r == nil {
			continue
		}
		if r.Failure != nil && (failure == nil || (r.Failure.Shrunk && !failure.Shrunk)) {
			failure = r.Failure
		}
		if r.Inconcl != "" && inconcl == "" {
			inconcl = r.Inconcl
		}
		for _, k := range r.Known {
			known[k] = true
		}
		for name, st := range r.Parts {
			t := total[name]
			if t == nil {
				t = &partStats{Classes: map[string]int{}}
				total[name] = t
			}
			t.Evaluations += st.Evaluations
			t.NonTrivial += st.NonTrivial
			t.Excluded += st.Excluded
			for k, v := range st.Classes {
				t.Classes[k] += v
			}
			if len(t.Samples) < 3 {
				t.Samples = append(t.Samples, st.Samples...)
			}
		}
	}
	distinct := countDistinct(dir, c.Shards)

	code := 0
	violations := 0
	switch {
	case failure != nil:
		code = 1
		violations = 1
		path := saveReplay(c, failure)
		fmt.Printf("part %s: %s\ncase: %s\n", failure.Part, failure.Message, head(string(failure.Case), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	case inconcl != "":
		code = 2
		fmt.Println("inconclusive:", inconcl)
	default:
		ks := knownList(c.ID)
		for _, k := range ks {
			for seen := range known {
				if seen == k.Key || strings.HasPrefix(seen, k.Key+":") {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
					break
				}
			}
		}
	}
	writeEvidence(c, total, distinct, time.Since(start), violations, known)
	sum := 0
	for _, p := range c.Parts {
		if t := total[p.Name]; t != nil {
			sum += t.Evaluations
			fmt.Printf("%s/%s: %d cases, %d non-trivial", c.ID, p.Name, t.Evaluations, t.NonTrivial)
			for _, k := range sortedKeys(t.Classes) {
				fmt.Printf("; %s %d", k, t.Classes[k])
			}
			fmt.Println()
		}
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1fs, exit %d\n", c.ID, sum, distinct, time.Since(start).Seconds(), code)
	return code
}

type procSet struct {
	mu     sync.Mutex
	m      map[int]int // shard -> pid
	killed map[int]bool
	stop   bool
	winner int
}

func (p *procSet) add(shard, pid int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.m[shard] = pid
	if p.stop && shard != p.winner {
		p.kill(shard)
	}
}

func (p *procSet) remove(shard int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	delete(p.m, shard)
}

func (p *procSet) kill(shard int) {
	if p.killed == nil {
		p.killed = map[int]bool{}
	}
	if pid, ok := p.m[shard]; ok {
		p.killed[shard] = true
		syscall.Kill(-pid, syscall.SIGKILL)
	}
}

func (p *procSet) killOthers(shard int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.stop {
		return
	}
	p.stop, p.winner = true, shard
	for s := range p.m {
		if s != shard {
			p.kill(s)
		}
	}
}

func (p *procSet) stopped(shard int) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.stop && p.winner != shard
}

func (p *procSet) wasKilled(shard int) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.killed[shard] || (p.stop && p.winner != shard)
}

func runShard(c *Check, dir string, shard int, procs *procSet) (*childReport, error) {
	rep, code, out, err := startShard(c, dir, shard, nil, procs)
	if err != nil {
		return rep, err
	}
	if rep != nil && rep.Finished {
		return rep, nil
	}
	if procs.stopped(shard) {
		return rep, nil
	}
	if rep != nil && rep.Failure != nil {
		// failed, then died while shrinking: report the unshrunk case
		return rep, nil
	}
	// the process died: find out in which case, and decide it in isolation
	part, idx, raw, jerr := readJournal(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
	if jerr != nil {
		return nil, fmt.Errorf("shard %d ended with status %d before any case: %s", shard, code, tail(out, 3000))
	}
	fmt.Printf("shard %d died (status %d) in case %d of part %s; deciding it in isolation\n%s\n", shard, code, idx, part, head(out, 6000))
	file := filepath.Join(dir, fmt.Sprintf("died.%d.json", shard))
	rp := Replay{Property: c.ID, Part: part, Case: raw}
	b, _ := json.Marshal(&rp)
	os.WriteFile(file, b, 0o600)
	var fail error
	for try := 0; try < 5 && fail == nil; try++ {
		fail = execCase(c, file, c.CaseCPU)
	}
	direct := (code == exitRace) || (code == 2 && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")))
	var ic *inconclusiveErr
	if fail == nil || errors.As(fail, &ic) {
		if direct && crashIsOurs(out) == false {
			// a crash or race inside the code under test that the schedule made
			// happen once: the trace above is the evidence
			rp.Message = "observed once, not reproduced in isolation:\n" + head(out, 5000)
			return &childReport{Failure: &rp}, nil
		}
		return nil, fmt.Errorf("shard %d ended with status %d, not reproduced: %s", shard, code, tail(out, 3000))
	}
	rp.Message = fail.Error()
	// shrink, each case in its own process
	rep2, _, _, err := startShard(c, dir, shard, []string{
		"VH_ISOLATE_PART=" + part, "VH_ISOLATE_FROM=" + strconv.Itoa(idx), "VH_SHRINKTIME=40s",
	}, procs)
	if err == nil && rep2 != nil && rep2.Failure != nil {
		return rep2, nil
	}
	return &childReport{Failure: &rp}, nil
}

// crashIsOurs reports whether the crashing goroutine was in harness code only.
func crashIsOurs(out string) bool {
	return !strings.Contains(out, "Redundancy/go-sync")
}

func startShard(c *Check, dir string, shard int, extra []string, procs *procSet) (*childReport, int, string, error) {
	repFile := filepath.Join(dir, fmt.Sprintf("report.%d", shard))
	os.Remove(repFile)
	cmd := exec.Command(os.Args[0], "-test.run=^TestCheck$", "-test.timeout=0")
	cmd.Env = append(os.Environ(),
		"VH_CHILD="+strconv.Itoa(shard), "VH_DIR="+dir,
		"GOMAXPROCS="+strconv.Itoa(c.Procs), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, extra...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var out limitBuf
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return nil, 0, "", err
	}
	procs.add(shard, cmd.Process.Pid)
	cmd.Wait()
	procs.remove(shard)
	code := cmd.ProcessState.ExitCode()
	b, err := os.ReadFile(repFile)
	if err != nil {
		return nil, code, out.String(), nil
	}
	var rep childReport
	if err := json.Unmarshal(b, &rep); err != nil {
		return nil, code, out.String(), err
	}
	return &rep, code, out.String(), nil
}

func readJournal(file string) (part string, idx int, raw []byte, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	nl := strings.IndexByte(string(b), '\n')
	if nl < 0 {
		return "", 0, nil, errors.New("empty journal")
	}
	var n int
	if _, err = fmt.Sscanf(string(b[:nl]), "%s %d %d", &part, &idx, &n); err != nil {
		return
	}
	if len(b) < nl+1+n {
		return "", 0, nil, errors.New("short journal")
	}
	return part, idx, b[nl+1 : nl+1+n], nil
}

func countDistinct(dir string, shards int) int {
	seen := map[uint64]struct{}{}
	for i := 0; i < shards; i++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", i)))
		if err != nil {
			continue
		}
		for len(b) >= 8 {
			seen[binary.LittleEndian.Uint64(b)] = struct{}{}
			b = b[8:]
		}
	}
	return len(seen)
}

func saveReplay(c *Check, r *Replay) string {
	d := filepath.Join(root(), "replays")
	os.MkdirAll(d, 0o755)
	name := filepath.Join(d, fmt.Sprintf("%s-%s-%016x.json", c.ID, r.Part, hash64(r.Case)))
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(name, append(b, '\n'), 0o644)
	return name
}

func writeEvidence(c *Check, total map[string]*partStats, distinct int, wall time.Duration, violations int, known map[string]bool) {
	evals := 0
	rules := []string{}
	samples := []any{}
	parts := map[string]any{}
	for _, p := range c.Parts {
		t := total[p.Name]
		if t == nil {
			continue
		}
		evals += t.Evaluations
		rules = append(rules, p.Name+": "+p.Rule)
		for i, s := range t.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"part": p.Name, "case": s})
			}
		}
		parts[p.Name] = map[string]any{
			"cases": t.Evaluations, "nontrivial": t.NonTrivial, "classes": t.Classes, "excluded_known": t.Excluded,
		}
	}
	kn := []string{}
	for k := range known {
		kn = append(kn, k)
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier(), "seed": verifSeed(), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": distinct,
			"rule": strings.Join(rules, " | "), "samples": samples,
			"parts": parts, "shards": c.Shards, "known_findings_seen": kn,
		},
		"assumptions": c.Assumptions,
		"wall_s":      wall.Seconds(), "violations": violations,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(root(), "evidence")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, c.ID+".json"), append(b, '\n'), 0o644)
}
