package c26

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/vh"
)

// command is a run of the tool on large files, as a process whose memory the system counts.
type command struct {
	How  string `json:"how"` // build, diff, patch
	N    int    `json:"n"`
	BS   int    `json:"bs"`
	P    int    `json:"p"`
	Seed uint64 `json:"seed"`
	Have int    `json:"have"`           // percent of the reference that the local file starts with
	Skew int    `json:"skew,omitempty"` // bytes in front of it in the local file
	URL  bool   `json:"url,omitempty"`
	Here bool   `json:"here,omitempty"` // patched in place
}

func genCommand(minMB, maxMB int) func(t *rapid.T) command {
	return func(t *rapid.T) command {
		return command{
			How:  rapid.SampledFrom([]string{"build", "diff", "patch", "patch"}).Draw(t, "how"),
			N:    rapid.IntRange(minMB*mb, maxMB*mb).Draw(t, "n"),
			BS:   rapid.SampledFrom([]int{8192, 20000, 65536, 100000}).Draw(t, "bs"),
			P:    rapid.IntRange(1, 8).Draw(t, "p"),
			Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed"),
			Have: rapid.SampledFrom([]int{0, 1, 50, 100}).Draw(t, "have"),
			Skew: rapid.SampledFrom([]int{0, 0, 1, 5000}).Draw(t, "skew"),
			URL:  rapid.Bool().Draw(t, "url"),
			Here: rapid.Bool().Draw(t, "here"),
		}
	}
}

// peak follows how much memory a process has had at most, until it ends.
func peak(pid int, kb *int, done *sync.WaitGroup) {
	done.Add(1)
	go func() {
		defer done.Done()
		for {
			b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
			_, rest, ok := strings.Cut(string(b), "VmHWM:")
			if err != nil || !ok { // it has ended
				return
			}
			line, _, _ := strings.Cut(rest, "kB")
			if n, err := strconv.Atoi(strings.TrimSpace(line)); err == nil {
				*kb = max(*kb, n)
			}
			time.Sleep(4 * time.Millisecond)
		}
	}()
}

func runCommand(c command, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	quiet := newMeter(1 << 60)
	content := func(n int) *file { return &file{c: tc{Seed: c.Seed, How: "patch"}, n: int64(n), m: quiet} }
	put := func(name string, skew, n int) {
		f, err := os.Create(filepath.Join(dir, name))
		vh.Must(err)
		_, err = f.Write(bytes.Repeat([]byte{'-'}, skew))
		vh.Must(err)
		_, err = io.Copy(f, content(n))
		vh.Must(err)
		vh.Must(f.Close())
	}
	put("ref.bin", 0, c.N)
	// what the system counts includes the garbage that has not been collected, which is kept low
	allowed := uint64(48*mb + c.P*(5*mb/2+8*c.BS) + c.N/c.BS*400)
	most := 0
	run := func(args ...string) error {
		var wg sync.WaitGroup
		kb := 0
		res := cli.Options{Env: []string{"GOGC=20"}, Started: func(pid int) { peak(pid, &kb, &wg) }}.Run(dir, args...)
		wg.Wait()
		if !res.OK() {
			return vh.Failf("failed without cause: %v", res)
		}
		if uint64(kb)<<10 > allowed {
			return vh.Failf("gosync %q has had %d bytes of memory for files of %d bytes, %d are allowed (block size %d)", args, kb<<10, c.N, allowed, c.BS)
		}
		most = max(most, kb)
		return nil
	}
	if err := run("build", "--blocksize", strconv.Itoa(c.BS), "ref.bin"); err != nil {
		return err
	}
	p := strconv.Itoa(c.P)
	if c.How != "build" {
		put("local", c.Skew, c.N/100*c.Have)
	}
	switch c.How {
	case "diff":
		if err := run("diff", "-p", p, "local", "ref.gosync"); err != nil {
			return err
		}
	case "patch":
		source := "ref.bin"
		if c.URL {
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
				http.ServeContent(w, rq, "source", time.Time{}, content(c.N))
			}))
			defer srv.Close()
			source = srv.URL + "/source"
		}
		args := []string{"patch", "-p", p, "local", "ref.gosync", source}
		out := "local"
		if !c.Here {
			out = "out"
			args = append(args, out)
		}
		if err := run(args...); err != nil {
			return err
		}
		if err := same(filepath.Join(dir, out), content(c.N), c.N); err != nil {
			return err
		}
	}
	r.Class(c.How)
	r.ClassIf(uint64(most)<<10 < allowed/2, "less than half of what is allowed")
	if most > 0 && uint64(c.N) > allowed*9/8 {
		r.NonTrivial()
	}
	return nil
}

// same compares a file on disk with what it should be.
func same(name string, want io.Reader, n int) error {
	f, err := os.Open(name)
	vh.Must(err)
	defer f.Close()
	if fi, err := f.Stat(); err != nil || fi.Size() != int64(n) {
		return vh.Failf("an output of %d bytes instead of %d (%v)", fi.Size(), n, err)
	}
	a, b, at := make([]byte, 1<<16), make([]byte, 1<<16), 0
	for {
		n, _ := io.ReadFull(f, a)
		k, _ := io.ReadFull(want, b)
		if !bytes.Equal(a[:n], b[:k]) {
			return vh.Failf("the output differs within bytes %d-%d", at, at+n)
		}
		if n == 0 {
			return nil
		}
		at += n
	}
}
