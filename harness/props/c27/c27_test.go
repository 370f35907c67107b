package c27

import (
	"bytes"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type tc struct {
	BS    int       `json:"bs"`
	Ref   []gen.Seg `json:"ref"`
	Local []gen.Seg `json:"local"`
	Out   string    `json:"out"` // inplace, symlink, hardlink, new, existing
	Old   int       `json:"old,omitempty"`
	At    []int     `json:"at"`              // the request at which each attempt is ended
	Other []gen.Seg `json:"other,omitempty"` // another version
	Ver   []bool    `json:"ver"`             // whether each attempt is for the other version
	Sig   []int     `json:"sig"`             // how
	Then  string    `json:"then"`
	CPU   int       `json:"cpu,omitempty"`
}

var signals = []syscall.Signal{syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS)}
		c.Ref = gen.Content(t, c.BS, maxLen)
		n := len(gen.Build(c.Ref, nil))
		c.Local = gen.Edited(t, c.BS, n, maxLen)
		c.Out = rapid.SampledFrom([]string{"inplace", "inplace", "symlink", "hardlink", "new", "existing"}).Draw(t, "out")
		if c.Out == "existing" {
			c.Old = gen.Pos(t, maxLen+maxLen/2, "oldSize")
		}
		for i, k := 0, rapid.IntRange(1, 3).Draw(t, "attempts"); i < k; i++ {
			c.At = append(c.At, rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3}).Draw(t, "at"))
			c.Sig = append(c.Sig, rapid.IntRange(0, len(signals)-1).Draw(t, "signal"))
			c.Ver = append(c.Ver, rapid.IntRange(0, 2).Draw(t, "version") == 0)
		}
		c.Other = gen.Edited(t, c.BS, n, maxLen+maxLen/2)
		c.Then = rapid.SampledFrom([]string{"again", "again", "resume"}).Draw(t, "then")
		c.CPU = rapid.SampledFrom([]int{1, 2, 4, 0}).Draw(t, "cpus")
		return c
	}
}

// index writes the index of ref as the tool would.
func index(dir, name string, ref []byte, bs int) error {
	cli.Write(filepath.Join(dir, "empty.x"), nil)
	res := cli.Run(dir, 0, "build", "empty.x")
	h := cli.Read(filepath.Join(dir, "empty.gosync"))
	if !res.OK() || len(h) < oracle.HeaderSize {
		return vh.Failf("building the index of an empty file: %v, %d bytes", res, len(h))
	}
	v := func(o int) uint16 { return uint16(h[o]) | uint16(h[o+1])<<8 }
	cli.Write(filepath.Join(dir, name), oracle.Index(ref, bs, v(6), v(8), v(10)))
	return nil
}

func run(c tc, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	abs := func(n string) string { return filepath.Join(dir, n) }
	ref := gen.Build(c.Ref, nil)
	local := gen.Build(c.Local, ref)
	cli.Write(abs("local"), local)
	other := gen.Build(c.Other, ref)
	if err := index(dir, "ix.gosync", ref, c.BS); err != nil {
		return err
	}
	if err := index(dir, "other.gosync", other, c.BS); err != nil {
		return err
	}
	target := "local"
	switch c.Out {
	case "symlink":
		target = "link"
		vh.Must(os.Symlink("local", abs(target)))
	case "hardlink":
		target = "link"
		vh.Must(os.Link(abs("local"), abs(target)))
	case "new", "existing":
		target = "out"
		if c.Out == "existing" {
			cli.Write(abs(target), gen.Expand(9, c.Old))
		}
	}
	inPlace := target != "out"
	args := func(in, ix, source string) []string {
		a := []string{"patch", in, ix, source}
		if target != in {
			a = append(a, target)
		}
		return a
	}

	ended := 0
	for i, at := range c.At {
		pid := make(chan int, 1)
		ver, ix := ref, "ix.gosync"
		if c.Ver[i] {
			ver, ix = other, "other.gosync"
		}
		doc := &cli.Doc{Data: ver, Fault: "call", At: at}
		killed := false
		doc.Call = func() {
			if !killed {
				killed = true
				syscall.Kill(-<-pid, signals[c.Sig[i]])
			}
		}
		url := cli.Serve(map[string]*cli.Doc{"ref": doc}) + "ref"
		res := cli.Options{CPUs: c.CPU, Started: func(p int) { pid <- p }}.Run(dir, args("local", ix, url)...)
		_, hit := cli.Requests(doc)
		if res.Hung != "" {
			return vh.Failf("%v", res)
		}
		if !hit {
			// everything was there before the request at which to end it
			if !res.OK() {
				return vh.Failf("patching failed without cause: %v", res)
			}
			if got := cli.Read(abs(target)); !bytes.Equal(got, ver) {
				return vh.Failf("%v, but the output is wrong after %d interrupted attempts: %s", res, ended, e2e.Diff(got, ver))
			}
			r.ClassIf(ended > 0, "again, to its end")
			r.ClassIf(c.Ver[i], "to another version")
			if inPlace {
				local = ver
			}
			continue
		}
		if res.OK() {
			return vh.Failf("success although request %d was not answered: %v", at, res)
		}
		ended++
		r.ClassIf(res.Code >= 128, "ended by "+signals[c.Sig[i]].String())
		if got := cli.Read(abs("local")); !bytes.Equal(got, local) {
			return vh.Failf("patching was interrupted at request %d and has changed the local file (in place: %v): %v; %s", at, inPlace, res, e2e.Diff(got, local))
		}
	}

	// once more, undisturbed
	in := "local"
	if c.Then == "resume" && !inPlace {
		// with what has been written so far as the local version
		b := cli.Read(abs(target))
		r.ClassIf(len(b) > 0, "resumed with something")
		cli.Write(abs("partial"), b)
		in = "partial"
	}
	doc := &cli.Doc{Data: ref}
	url := cli.Serve(map[string]*cli.Doc{"ref": doc}) + "ref"
	a := args(in, "ix.gosync", url)
	if len(a) == 4 && target != in {
		a = append(a, target)
	}
	res := cli.Run(dir, c.CPU, a...)
	if !res.OK() || res.Crashed() {
		return vh.Failf("patching again after %d interrupted attempts: %v", ended, res)
	}
	if got := cli.Read(abs(target)); !bytes.Equal(got, ref) {
		return vh.Failf("%v, but the output is wrong after %d interrupted attempts: %s", res, ended, e2e.Diff(got, ref))
	}
	if !inPlace && !bytes.Equal(cli.Read(abs("local")), local) {
		return vh.Failf("%v changed the local file", res)
	}
	r.ClassIf(ended > 0, "interrupted: "+c.Out)
	r.ClassIf(ended > 1, "interrupted repeatedly")
	r.ClassIf(ended > 0, "interrupted")
	if ended > 0 {
		r.NonTrivial()
	}
	return nil
}

// build is an index that is built while the tool is interrupted.
type build struct {
	BS    int    `json:"bs"`
	N     int    `json:"n"`
	Seed  uint64 `json:"seed"`
	After []int  `json:"after"` // microseconds
	Sig   int    `json:"sig"`
	OldIx int    `json:"oldix"`
}

func genBuild(t *rapid.T) build {
	c := build{BS: gen.BlockSize(t, 4, 60), N: gen.Pos(t, 400000, "n"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	c.After = rapid.SliceOfN(rapid.IntRange(500, 30000), 1, 3).Draw(t, "after")
	c.Sig = rapid.IntRange(0, len(signals)-1).Draw(t, "signal")
	c.OldIx = rapid.SampledFrom([]int{0, 0, 10, 1000000}).Draw(t, "old index")
	return c
}

func runBuild(c build, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	abs := func(n string) string { return filepath.Join(dir, n) }
	ref := gen.Expand(c.Seed, c.N)
	cli.Write(abs("file"), ref)
	if c.OldIx > 0 {
		cli.Write(abs("file.gosync"), make([]byte, c.OldIx))
	}
	args := []string{"build", "--blocksize", strconv.Itoa(c.BS), "file"}
	ended := 0
	check := func() error {
		if !bytes.Equal(cli.Read(abs("file")), ref) {
			return vh.Failf("building changed the file")
		}
		return nil
	}
	complete := func(res cli.Result) error {
		got := cli.Read(abs("file.gosync"))
		if !res.OK() || len(got) < oracle.HeaderSize {
			return vh.Failf("building after %d interrupted attempts: %v, index of %d bytes", ended, res, len(got))
		}
		v := func(o int) uint16 { return uint16(got[o]) | uint16(got[o+1])<<8 }
		if want := oracle.Index(ref, c.BS, v(6), v(8), v(10)); !bytes.Equal(got, want) {
			return vh.Failf("the index is wrong after %d interrupted attempts: %s", ended, e2e.Diff(got, want))
		}
		return check()
	}
	for _, us := range c.After {
		res := cli.Options{Started: func(pid int) {
			time.Sleep(time.Duration(us) * time.Microsecond)
			syscall.Kill(-pid, signals[c.Sig])
		}}.Run(dir, args...)
		if res.Hung != "" {
			return vh.Failf("%v", res)
		}
		if err := check(); err != nil {
			return err
		}
		if res.OK() {
			if err := complete(res); err != nil {
				return err
			}
			r.Class("finished before it was interrupted")
			continue
		}
		if res.Code < 128 && signals[c.Sig] == syscall.SIGKILL {
			return vh.Failf("building failed without cause: %v", res)
		}
		ended++
		if n := len(cli.Read(abs("file.gosync"))); n > 0 && n != c.OldIx {
			r.Class("incomplete index left")
		}
	}
	if err := complete(cli.Run(dir, 0, args...)); err != nil {
		return err
	}
	for _, f := range cli.List(dir) {
		if f != "file" && f != "file.gosync" && !strings.HasPrefix(f, "tmp") {
			return vh.Failf("building left %s", f)
		}
	}
	if ended > 0 {
		r.NonTrivial()
	}
	return nil
}

const rule = "'gosync patch' (in place, by a link, or to a new or existing output) is ended by a signal when it sends a generated request, up to three times, each for the wanted or for another version of the file, and then run undisturbed for the wanted one, with the same local version or with what has been written so far"

var check = &vh.Check{
	ID: "C27",
	Parts: []*vh.Part{
		vh.NewPart("patch", rule+"; non-trivial: it was interrupted", 350, 8000, false, genCase(1, 24, 200), run),
		vh.NewPart("patch-large", rule+"; up to 60000 bytes", 80, 2000, false, genCase(200, 3000, 60000), run),
		vh.NewPart("build", "'gosync build' of up to 400000 bytes is ended by a signal after a generated time, up to three times, with or without an older index in place, and then run undisturbed; non-trivial: it was interrupted", 60, 2500, false, genBuild, runBuild),
	},
	Procs: 2,
	Assumptions: []string{
		"a patch is interrupted while data is still to be fetched, so before anything is copied into place; the copy itself is not atomic",
		"an interrupted process may leave its temporary file",
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
