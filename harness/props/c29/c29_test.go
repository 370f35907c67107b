package c29

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

// perm is what the user may do with a file.
type perm struct {
	Own  bool `json:"own,omitempty"` // belongs to the user
	Bits int  `json:"bits"`          // 4 read, 2 write
}

func (p perm) read() bool  { return p.Bits&4 != 0 }
func (p perm) write() bool { return p.Bits&2 != 0 }

type tc struct {
	Cmd    string    `json:"cmd"` // patch, build, diff
	BS     int       `json:"bs"`
	Ref    []gen.Seg `json:"ref"`
	Local  []gen.Seg `json:"local"`
	PLocal perm      `json:"plocal"`
	PIndex perm      `json:"pindex"`
	PRef   perm      `json:"pref"`
	POut   perm      `json:"pout"`
	Out    string    `json:"out"`           // inplace, new, existing (patch); new, existing (build)
	Old    int       `json:"old,omitempty"` // size of what exists
	HTTP   bool      `json:"http,omitempty"`
	Cwd    string    `json:"cwd"` // dir (that of the files) or other
	WDir   bool      `json:"wdir"`
	WCwd   bool      `json:"wcwd"`
	CPU    int       `json:"cpu,omitempty"`
}

func genPerm(t *rapid.T, what string, bits ...int) perm {
	return perm{rapid.Bool().Draw(t, what+" owned"), rapid.SampledFrom(bits).Draw(t, what)}
}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS), Cmd: rapid.SampledFrom([]string{"patch", "patch", "patch", "build", "diff"}).Draw(t, "command")}
		c.Ref = gen.Content(t, c.BS, maxLen)
		n := len(gen.Build(c.Ref, nil))
		c.Local = gen.Edited(t, c.BS, n, maxLen)
		in := []int{4, 4, 4, 4, 4, 6, 6, 2, 0}
		c.PLocal = genPerm(t, "local", in...)
		c.PIndex = genPerm(t, "index", in...)
		c.PRef = genPerm(t, "reference", in...)
		c.POut = genPerm(t, "output", 6, 6, 2, 2, 4, 0)
		c.Out = rapid.SampledFrom([]string{"inplace", "new", "existing"}).Draw(t, "out")
		if c.Out == "existing" {
			c.Old = gen.Pos(t, maxLen+maxLen/2, "old")
		}
		c.HTTP = rapid.IntRange(0, 2).Draw(t, "http") == 0
		c.Cwd = rapid.SampledFrom([]string{"dir", "dir", "other"}).Draw(t, "cwd")
		c.WDir = rapid.IntRange(0, 3).Draw(t, "dir") != 0
		c.WCwd = rapid.IntRange(0, 3).Draw(t, "cwd writable") != 0
		c.CPU = rapid.SampledFrom([]int{1, 2, 0}).Draw(t, "cpus")
		return c
	}
}

func run(c tc, r *vh.Rec) error {
	base, done := cli.Dir()
	defer done()
	cli.Reach(base)
	dir, other := filepath.Join(base, "files"), filepath.Join(base, "other")
	vh.Must(os.Mkdir(dir, 0o755))
	vh.Must(os.Mkdir(other, 0o755))
	abs := func(n string) string { return filepath.Join(dir, n) }
	ref := gen.Build(c.Ref, nil)
	local := gen.Build(c.Local, ref)

	// what the tool's version is
	cli.Write(abs("empty.x"), nil)
	if res := cli.Run(dir, 0, "build", "empty.x"); !res.OK() {
		return vh.Failf("building the index of an empty file: %v", res)
	}
	h := cli.Read(abs("empty.gosync"))
	if len(h) < oracle.HeaderSize {
		return vh.Failf("an index of %d bytes", len(h))
	}
	v := func(o int) uint16 { return uint16(h[o]) | uint16(h[o+1])<<8 }
	vh.Must(os.Remove(abs("empty.x")))
	vh.Must(os.Remove(abs("empty.gosync")))

	put := func(name string, b []byte, p perm) {
		cli.Write(abs(name), b)
		mode := os.FileMode(p.Bits)
		if p.Own {
			vh.Must(os.Chown(abs(name), cli.Nobody, cli.Nobody))
			mode <<= 6
		}
		vh.Must(os.Chmod(abs(name), mode))
	}
	index := oracle.Index(ref, c.BS, v(6), v(8), v(10))
	wdir, wcwd := c.WDir, c.WCwd
	cwd, rel := other, dir+"/"
	if c.Cwd == "dir" {
		cwd, rel, wcwd = dir, "", wdir
	}

	files := map[string][]byte{}
	add := func(name string, b []byte, p perm) {
		put(name, b, p)
		files[name] = b
	}
	var args []string
	var target string
	var want []byte
	may, must := false, false // succeed
	writes := func(out perm) bool {
		if c.Out == "new" {
			return wdir
		}
		return out.write()
	}
	switch c.Cmd {
	case "patch":
		add("local", local, c.PLocal)
		add("ix.gosync", index, c.PIndex)
		source := rel + "ref"
		readable := c.PLocal.read() && c.PIndex.read()
		if c.HTTP {
			source = cli.Serve(map[string]*cli.Doc{"ref": {Data: ref}}) + "ref"
		} else {
			add("ref", ref, c.PRef)
			readable = readable && c.PRef.read()
		}
		args = []string{"patch", rel + "local", rel + "ix.gosync", source}
		target, want = "local", ref
		if c.Out != "inplace" {
			target = "out"
			args = append(args, rel+"out")
			if c.Out == "existing" {
				add("out", gen.Expand(9, c.Old), c.POut)
			}
			may = readable && writes(c.POut)
			must = may && (c.Out == "new" || c.POut.read())
		} else {
			// a temporary file is needed somewhere
			must = readable && c.PLocal.write() && wdir && wcwd
			may = readable && (c.PLocal.write() || wdir)
		}
	case "build":
		add("file.x", ref, c.PRef)
		if c.Out == "inplace" {
			c.Out = "new"
		}
		args = []string{"build", "--blocksize", strconv.Itoa(c.BS), rel + "file.x"}
		target, want = "file.gosync", index
		if c.Out == "existing" {
			add("file.gosync", gen.Expand(9, c.Old), c.POut)
		}
		may = c.PRef.read() && writes(c.POut)
		must = may && (c.Out == "new" || c.POut.read())
	case "diff":
		add("local", local, c.PLocal)
		add("ix.gosync", index, c.PIndex)
		args = []string{"diff", rel + "local", rel + "ix.gosync"}
		must = c.PLocal.read() && c.PIndex.read()
		may = must
	}
	set := func(d string, w bool) {
		mode := os.FileMode(0o555)
		if w {
			mode = 0o777
		}
		vh.Must(os.Chmod(d, mode))
	}
	set(dir, wdir)
	set(other, wcwd)
	modes := map[string]os.FileMode{}
	for n := range files {
		fi, err := os.Stat(abs(n))
		vh.Must(err)
		modes[n] = fi.Mode()
	}

	res := cli.Options{CPUs: c.CPU, Nobody: true}.Run(cwd, args...)
	what := fmt.Sprintf("%v (readable or writable by the user: %v, directory %v, working directory %v)", res, modes, wdir, wcwd)
	if res.Hung != "" || res.Crashed() {
		return vh.Failf("%s", what)
	}
	if res.OK() && !may {
		return vh.Failf("success without permission: %s", what)
	}
	if !res.OK() && must {
		return vh.Failf("failure although what the task needs is permitted: %s", what)
	}
	for n, b := range files {
		if n == target && res.OK() {
			continue
		}
		got, err := os.ReadFile(abs(n))
		if err != nil || !bytes.Equal(got, b) {
			return vh.Failf("%s is not what it was (%v): %s; %s", n, err, what, e2e.Diff(got, b))
		}
		fi, err := os.Stat(abs(n))
		if err != nil || fi.Mode() != modes[n] {
			return vh.Failf("the mode of %s has changed: %s", n, what)
		}
	}
	if res.OK() && target != "" {
		if got := cli.Read(abs(target)); !bytes.Equal(got, want) {
			return vh.Failf("the result is wrong: %s; %s", what, e2e.Diff(got, want))
		}
	}
	switch {
	case !may:
		r.Class(c.Cmd + " without permission")
		r.NonTrivial()
	case must:
		r.Class(c.Cmd + " with permission")
		r.ClassIf(c.Cmd == "patch", c.Cmd+" "+c.Out)
		r.NonTrivial()
	}
	return nil
}

const rule = "build, diff and patch (to a new or existing output or in place, source by http or path) as a user without privileges, with files and directories that the user may read, write, both or neither; non-trivial: the permissions decide whether the command must succeed or fail"

var check = &vh.Check{
	ID: "C29",
	Parts: []*vh.Part{
		vh.NewPart("permissions", rule, 350, 8000, false, genCase(1, 24, 200), run),
		vh.NewPart("permissions-large", rule+"; up to 60000 bytes", 60, 1500, false, genCase(200, 3000, 60000), run),
	},
	Procs: 2,
	Assumptions: []string{
		"a file to be overwritten may have to be readable",
		"when a file is patched in place, the directory of the file and the working directory may have to be writable, for a temporary file",
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
