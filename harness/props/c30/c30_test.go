package c30

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type task struct {
	Cmd   string    `json:"cmd"`             // patch, build
	Out   string    `json:"out"`             // inplace, new, existing
	Same  bool      `json:"same,omitempty"`  // uses the reference and index of all
	Local []gen.Seg `json:"local,omitempty"` // nil: the shared local version (not in place)
	Ref   []gen.Seg `json:"ref,omitempty"`
	HTTP  bool      `json:"http"`
	CPU   int       `json:"cpu,omitempty"`
}

type tc struct {
	BS    int       `json:"bs"`
	Ref   []gen.Seg `json:"ref"`
	Local []gen.Seg `json:"local"`
	Tasks []task    `json:"tasks"`
}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS)}
		c.Ref = gen.Content(t, c.BS, maxLen)
		n := len(gen.Build(c.Ref, nil))
		c.Local = gen.Edited(t, c.BS, n, maxLen)
		for i, k := 0, rapid.IntRange(2, 5).Draw(t, "tasks"); i < k; i++ {
			x := task{
				Cmd:  rapid.SampledFrom([]string{"patch", "patch", "patch", "build"}).Draw(t, "command"),
				Out:  rapid.SampledFrom([]string{"inplace", "inplace", "new", "existing"}).Draw(t, "out"),
				Same: rapid.Bool().Draw(t, "same"),
				HTTP: rapid.IntRange(0, 2).Draw(t, "http") != 0,
				CPU:  rapid.SampledFrom([]int{1, 2, 0}).Draw(t, "cpus"),
			}
			if !x.Same {
				x.Ref = gen.Edited(t, c.BS, n, maxLen)
			}
			if x.Out == "inplace" || rapid.Bool().Draw(t, "own local") {
				x.Local = append(gen.Edited(t, c.BS, n, maxLen), gen.Seg{K: "lit"})
			}
			c.Tasks = append(c.Tasks, x)
		}
		return c
	}
}

// turn lets requests through once every command has sent one or has ended.
type turn struct {
	mu    sync.Mutex
	cond  *sync.Cond
	there map[int]bool
	n     int
}

func (x *turn) arrive(i int, wait bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.there[i] = true
	x.cond.Broadcast()
	for wait && len(x.there) < x.n {
		x.cond.Wait()
	}
}

func run(c tc, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	abs := func(n string) string { return filepath.Join(dir, n) }
	cli.Write(abs("empty.x"), nil)
	if res := cli.Run(dir, 0, "build", "empty.x"); !res.OK() {
		return vh.Failf("building the index of an empty file: %v", res)
	}
	h := cli.Read(abs("empty.gosync"))
	if len(h) < oracle.HeaderSize {
		return vh.Failf("an index of %d bytes", len(h))
	}
	v := func(o int) uint16 { return uint16(h[o]) | uint16(h[o+1])<<8 }
	index := func(b []byte) []byte { return oracle.Index(b, c.BS, v(6), v(8), v(10)) }

	keep := map[string][]byte{} // files that stay
	want := map[string][]byte{}
	stay := func(n string, b []byte) {
		cli.Write(abs(n), b)
		keep[n] = b
	}
	ref := gen.Build(c.Ref, nil)
	local := gen.Build(c.Local, ref)
	stay("ref", ref)
	stay("local", local)
	stay("ix.gosync", index(ref))

	x := &turn{there: map[int]bool{}, n: len(c.Tasks)}
	x.cond = sync.NewCond(&x.mu)
	docs := map[string]*cli.Doc{}
	var args [][]string
	for i, k := range c.Tasks {
		id := strconv.Itoa(i)
		version, ix, source := ref, "ix.gosync", "ref"
		if !k.Same {
			version, ix, source = gen.Build(k.Ref, ref), "ix"+id+".gosync", "ref"+id
			stay(source, version)
			stay(ix, index(version))
		}
		if k.Cmd == "build" {
			name := "file" + id
			stay(name+".x", version)
			want[name+".gosync"] = index(version)
			if k.Out == "existing" {
				cli.Write(abs(name+".gosync"), gen.Expand(9, 3*len(version)))
			}
			args = append(args, []string{"build", "--blocksize", strconv.Itoa(c.BS), name + ".x"})
			continue
		}
		in := "local"
		if k.Local != nil {
			in = "local" + id
			b := gen.Build(k.Local, ref)
			cli.Write(abs(in), b)
			if k.Out != "inplace" {
				keep[in] = b
			}
		}
		if k.HTTP {
			docs["ref"+id] = &cli.Doc{Data: version, Gate: func() { x.arrive(i, true) }}
			source = "URL" + "ref" + id
		}
		a := []string{"patch", in, ix, source}
		out := in
		if k.Out != "inplace" {
			out = "out" + id
			a = append(a, out)
			if k.Out == "existing" {
				cli.Write(abs(out), gen.Expand(9, len(version)+50))
			}
		}
		want[out] = version
		args = append(args, a)
	}
	url := cli.Serve(docs)
	results := make([]cli.Result, len(args))
	var wg sync.WaitGroup
	for i, a := range args {
		for j := range a {
			if rest, ok := strings.CutPrefix(a[j], "URL"); ok {
				a[j] = url + rest
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = cli.Options{CPUs: c.Tasks[i].CPU}.Run(dir, a...)
			x.arrive(i, false)
		}()
	}
	wg.Wait()
	for _, res := range results {
		if !res.OK() || res.Crashed() {
			return vh.Failf("%v, at the same time as %v", res, args)
		}
	}
	for n, b := range keep {
		if got, err := os.ReadFile(abs(n)); err != nil || !bytes.Equal(got, b) {
			return vh.Failf("%s is not what it was after %v (%v): %s", n, args, err, e2e.Diff(got, b))
		}
	}
	for n, b := range want {
		if got := cli.Read(abs(n)); !bytes.Equal(got, b) {
			return vh.Failf("%s is wrong after %v at the same time: %s", n, args, e2e.Diff(got, b))
		}
		delete(keep, n)
	}
	for _, f := range cli.List(dir) {
		_, a := keep[f]
		_, b := want[f]
		if !a && !b && !strings.HasPrefix(f, "empty.") {
			return vh.Failf("%s is left after %v", f, args)
		}
	}
	inplace := 0
	for i, k := range c.Tasks {
		n := 0
		if d := docs["ref"+strconv.Itoa(i)]; d != nil {
			n, _ = cli.Requests(d)
		}
		if n > 0 && k.Out == "inplace" {
			inplace++
		}
		r.Class(fmt.Sprintf("%s %s", k.Cmd, k.Out))
	}
	r.ClassIf(inplace > 1, "in place at once")
	r.NonTrivial()
	return nil
}

const rule = "2 to 5 commands (patch in place or to an own output, build) run at the same time in one directory, with shared and own local versions, indices and references; requests are answered once every command has sent one or has ended; all cases are non-trivial"

var check = &vh.Check{
	ID: "C30",
	Parts: []*vh.Part{
		vh.NewPart("side", rule, 120, 4000, false, genCase(1, 24, 200), run),
		vh.NewPart("side-large", rule+"; up to 60000 bytes", 30, 1000, false, genCase(200, 3000, 60000), run),
	},
	Procs:       2,
	Assumptions: []string{"no command writes what another one reads or writes"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
