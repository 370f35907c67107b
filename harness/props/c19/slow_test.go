package c19

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"strconv"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/gen"
	"verif/vh"
)

// slow is a patch from a server that takes its time, which cannot be virtual here.
type slow struct {
	BS    int    `json:"bs"`
	Seed  uint64 `json:"seed"`
	N     int    `json:"n"`
	P     int    `json:"p"`
	Index int    `json:"index"` // seconds for the index, if it is fetched too
	Wait  int    `json:"wait"`  // seconds for one of the requests
	At    int    `json:"at"`    // which
	Mid   int    `json:"mid"`   // after so many bytes of the answer; 0: before it
}

func genSlow(t *rapid.T) slow {
	c := slow{BS: 1000 + gen.Pos(t, 60000, "bs"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed"), P: rapid.IntRange(1, 4).Draw(t, "p")}
	c.N = 1<<20 + gen.Pos(t, 3<<20, "n")
	c.At = rapid.IntRange(0, 2).Draw(t, "at")
	c.Wait = rapid.SampledFrom([]int{7, 16, 32, 32}).Draw(t, "wait")
	c.Index = rapid.SampledFrom([]int{0, 0, 2, 12}).Draw(t, "index")
	if rapid.Bool().Draw(t, "mid") {
		c.Mid = 1 + gen.Pos(t, 200, "after")
	}
	return c
}

func runSlow(c slow, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	abs := func(n string) string { return filepath.Join(dir, n) }
	ref := gen.Expand(c.Seed+1, c.N)
	cli.Write(abs("ref"), ref)
	cli.Write(abs("local"), gen.Expand(c.Seed+2, c.BS+10))
	if res := (cli.Options{}).Run(dir, "build", "--blocksize", strconv.Itoa(c.BS), "ref"); !res.OK() {
		return vh.Failf("%v", res)
	}
	ix := cli.Read(abs("ref.gosync"))
	var mu sync.Mutex
	n, waited := 0, false
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if q.URL.Path == "/index" {
			time.Sleep(time.Duration(c.Index) * time.Second / 2)
			w.Write(ix[:len(ix)/2])
			w.(http.Flusher).Flush()
			time.Sleep(time.Duration(c.Index) * time.Second / 2)
			w.Write(ix[len(ix)/2:])
			return
		}
		var from, to int
		if _, err := fmt.Sscanf(q.Header.Get("Range"), "bytes=%d-%d", &from, &to); err != nil || to < from || to >= len(ref) {
			w.WriteHeader(http.StatusRequestedRangeNotSatisfiable)
			return
		}
		mu.Lock()
		wait := n == c.At
		waited = waited || wait
		n++
		mu.Unlock()
		w.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, to, len(ref)))
		w.Header().Set("Content-Length", strconv.Itoa(to+1-from))
		mid := min(c.Mid, to+1-from)
		if wait && mid == 0 {
			time.Sleep(time.Duration(c.Wait) * time.Second)
		}
		w.WriteHeader(http.StatusPartialContent)
		w.Write(ref[from : from+mid])
		if wait && mid > 0 {
			w.(http.Flusher).Flush()
			time.Sleep(time.Duration(c.Wait) * time.Second)
		}
		w.Write(ref[from+mid : to+1])
	}))
	defer srv.Close()
	index := "ref.gosync"
	if c.Index > 0 {
		index = srv.URL + "/index"
	}
	res := cli.Options{Idle: 120}.Run(dir, "patch", "-p", strconv.Itoa(c.P), "local", index, srv.URL+"/ref", "out")
	if !res.OK() {
		return vh.Failf("a server that needs %d seconds for an answer: %v", c.Wait, res)
	}
	if !bytes.Equal(cli.Read(abs("out")), ref) {
		return vh.Failf("a server that needs %d seconds for an answer: the output is not the reference", c.Wait)
	}
	mu.Lock()
	defer mu.Unlock()
	if waited {
		r.NonTrivial()
		r.Class(fmt.Sprintf("waits %d seconds", c.Wait))
	}
	return nil
}
