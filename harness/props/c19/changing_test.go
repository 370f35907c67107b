package c19

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

// streams limits the fetches that are in progress.
type streams struct {
	BS    int     `json:"bs"`
	N     int     `json:"n"`
	Seed  uint64  `json:"seed"`
	P     int     `json:"p"`
	Holes []int   `json:"holes,omitempty"` // blocks that the local file has
	Bad   *string `json:"bad,omitempty"`   // a senseless number
	Name  string  `json:"name"`            // of the option
	Out   bool    `json:"out"`
}

func genStreams(t *rapid.T) streams {
	c := streams{BS: rapid.IntRange(700, 90000).Draw(t, "bs"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	c.N = rapid.IntRange(0, 7).Draw(t, "millions")*1_000_000 + 1 + gen.Pos(t, 999_999, "n")
	c.P = rapid.IntRange(1, 6).Draw(t, "p")
	for i, k := 0, rapid.IntRange(0, 3).Draw(t, "k"); i < k; i++ {
		c.Holes = append(c.Holes, rapid.IntRange(0, c.N/c.BS).Draw(t, "hole"))
	}
	c.Name = rapid.SampledFrom([]string{"-p", "--p"}).Draw(t, "name")
	c.Out = rapid.Bool().Draw(t, "out")
	if rapid.IntRange(0, 4).Draw(t, "isBad") == 0 {
		b := rapid.SampledFrom([]string{"0", "-1", "-7", "x", "", "1.5"}).Draw(t, "bad")
		c.Bad = &b
	}
	return c
}

func runStreams(c streams, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	abs := func(n string) string { return filepath.Join(dir, n) }
	ref := gen.Expand(c.Seed, c.N)
	local := []byte("something else")
	for _, h := range c.Holes {
		local = append(local, ref[min(h*c.BS, len(ref)):min((h+1)*c.BS, len(ref))]...)
	}
	cli.Write(abs("local"), local)
	cli.Write(abs("ix.gosync"), oracle.Index(ref, c.BS, 0, 2, 1))
	var mu sync.Mutex
	now, most := 0, 0
	doc := &cli.Doc{Data: ref, Gate: func() {
		mu.Lock()
		now++
		most = max(most, now)
		mu.Unlock()
		time.Sleep(20 * time.Millisecond)
		mu.Lock()
		now--
		mu.Unlock()
	}}
	url := cli.Serve(map[string]*cli.Doc{"ref": doc}) + "ref"
	p := strconv.Itoa(c.P)
	if c.Bad != nil {
		p = *c.Bad
	}
	args := []string{"patch", c.Name + "=" + p, "local", "ix.gosync", url}
	target := "local"
	if c.Out {
		target = "out"
		args = append(args, target)
	}
	res := cli.Run(dir, 0, args...)
	if res.Hung != "" || res.Crashed() {
		return vh.Failf("%v", res)
	}
	if c.Bad != nil {
		r.Class("senseless number")
		r.NonTrivial()
		if res.OK() {
			return vh.Failf("success with a senseless number of streams: %v", res)
		}
		if !bytes.Equal(cli.Read(abs("local")), local) {
			return vh.Failf("a failed patch changed the local file: %v", res)
		}
		return nil
	}
	if !res.OK() {
		return vh.Failf("patching failed: %v", res)
	}
	if got := cli.Read(abs(target)); !bytes.Equal(got, ref) {
		return vh.Failf("%v, but the output is wrong: %s", res, e2e.Diff(got, ref))
	}
	mu.Lock()
	defer mu.Unlock()
	if most > c.P {
		return vh.Failf("%d fetches were in progress at once with %s %d", most, c.Name, c.P)
	}
	r.Class(fmt.Sprintf("at most %d fetches at once", most))
	n, _ := cli.Requests(doc)
	if n > c.P {
		r.NonTrivial()
	}
	return nil
}

// changing is the index of something that is not as long as it seemed.
type changing struct {
	Kind string `json:"kind"` // fifo, grow, shrink
	BS   int    `json:"bs"`
	N    int    `json:"n"`
	By   int    `json:"by"`
	Late int    `json:"late"` // of the index is read before the change
	Seed uint64 `json:"seed"`
}

func genChanging(t *rapid.T) changing {
	c := changing{Kind: rapid.SampledFrom([]string{"fifo", "grow", "shrink"}).Draw(t, "kind"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	if c.Kind == "fifo" {
		c.BS = gen.BlockSize(t, 1, 3000)
		c.N = 1 + gen.Pos(t, 60000, "n")
		return c
	}
	// the index is longer than what fits into a pipe
	c.BS = gen.BlockSize(t, 1, 20)
	blocks := 6000 + gen.Pos(t, 6000, "blocks")
	c.N = c.BS*blocks + gen.Pos(t, c.BS, "tail")
	c.By = 1 + gen.Pos(t, c.N/2, "by")
	c.Late = gen.Pos(t, 40000, "late")
	return c
}

func runChanging(c changing, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	abs := func(n string) string { return filepath.Join(dir, n) }
	data := gen.Expand(c.Seed, c.N+c.By)
	args := []string{"build", "--blocksize", strconv.Itoa(c.BS), "f.bin"}
	if c.Kind == "fifo" {
		vh.Must(syscall.Mkfifo(abs("f.bin"), 0o600))
		ended := make(chan struct{})
		go func() {
			defer close(ended)
			w, err := os.OpenFile(abs("f.bin"), os.O_WRONLY, 0) // waits for a reader
			if err == nil {
				w.Write(data[:c.N])
				w.Close()
			}
		}()
		res := cli.Run(dir, 0, args...)
		// if the tool has not opened it; everything fits into the pipe
		f, err := os.OpenFile(abs("f.bin"), os.O_RDONLY|syscall.O_NONBLOCK, 0)
		vh.Must(err)
		<-ended
		f.Close()
		if res.Hung != "" || res.Crashed() {
			return vh.Failf("%v", res)
		}
		r.Class("no regular file")
		r.NonTrivial()
		if res.OK() {
			ix := cli.Read(abs("f.gosync"))
			if v := version(ix); !bytes.Equal(ix, oracle.Index(data, c.BS, v[0], v[1], v[2])) {
				return vh.Failf("success, but the index of what was read from a pipe (%d bytes) is wrong: it declares %d bytes", c.N, size(ix))
			}
		}
		return nil
	}

	n := c.N
	if c.Kind == "shrink" {
		n += c.By
	}
	cli.Write(abs("f.bin"), data[:n])
	// the index goes into a pipe, so that the tool stops while it writes it
	vh.Must(syscall.Mkfifo(abs("f.gosync"), 0o600))
	p, err := os.OpenFile(abs("f.gosync"), os.O_RDWR|syscall.O_NONBLOCK, 0)
	vh.Must(err)
	var got []byte
	var mu sync.Mutex
	changed := false
	late := make(chan struct{})
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		buf := make([]byte, 4096)
		once := sync.OnceFunc(func() { close(late) })
		for {
			k, err := p.Read(buf)
			mu.Lock()
			got = append(got, buf[:k]...)
			if !changed && len(got) > c.Late {
				changed = true
				if c.Kind == "grow" {
					f, e := os.OpenFile(abs("f.bin"), os.O_WRONLY|os.O_APPEND, 0)
					if e == nil {
						f.Write(data[c.N:])
						f.Close()
					}
				} else {
					os.Truncate(abs("f.bin"), int64(c.N))
				}
				once()
			}
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	res := cli.Run(dir, 0, args...)
	// what is left in the pipe
	p.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
	<-ended
	p.Close()
	if res.Hung != "" || res.Crashed() {
		return vh.Failf("%v", res)
	}
	select {
	case <-late:
	default:
		r.Class("ended before the change")
	}
	if fi, err := os.Lstat(abs("f.gosync")); err == nil && fi.Mode().IsRegular() {
		got = cli.Read(abs("f.gosync")) // another file was put there
	}
	if !res.OK() {
		if !changed {
			return vh.Failf("building an index failed without cause: %v", res)
		}
		r.Class("refused: " + c.Kind)
		r.NonTrivial()
		return nil
	}
	s := size(got)
	if s != int64(c.N) && s != int64(c.N+c.By) {
		return vh.Failf("the index declares %d bytes for a file of %d, then %d bytes", s, n, 2*c.N+c.By-n)
	}
	if v := version(got); !bytes.Equal(got, oracle.Index(data[:s], c.BS, v[0], v[1], v[2])) {
		return vh.Failf("success, but the index is not that of the %d bytes that it declares (the file had %d bytes, then %d while it was read)", s, n, 2*c.N+c.By-n)
	}
	r.Class("consistent: " + c.Kind)
	r.NonTrivial()
	return nil
}

func size(ix []byte) int64 {
	if len(ix) < oracle.HeaderSize {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(ix[12:]))
}

func version(ix []byte) (v [3]uint16) {
	if len(ix) >= oracle.HeaderSize {
		for i := range v {
			v[i] = binary.LittleEndian.Uint16(ix[6+2*i:])
		}
	}
	return
}
