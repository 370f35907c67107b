package c19

import (
	"bytes"
	"encoding/binary"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type tc struct {
	BS    int       `json:"bs"` // 0: the default
	Ref   []gen.Seg `json:"ref"`
	Local []gen.Seg `json:"local"`
	Name  string    `json:"name"`            // of the original
	LName string    `json:"lname"`           // of the local version
	OldIx int       `json:"oldix,omitempty"` // size of an older index in its place
	Index string    `json:"index"`           // path, abs, url
	Src   string    `json:"src"`             // url, path, abs
	TLS   int       `json:"tls,omitempty"`   // https for the URL of the index (1), of the source (2)
	Caps  int       `json:"caps,omitempty"`  // the scheme in capitals, likewise
	Out   string    `json:"out"`             // inplace, self (named twice), symlink, hardlink (to the local version), new, existing
	Old   int       `json:"old,omitempty"`
	P     int       `json:"p,omitempty"`
	CPU   int       `json:"cpu,omitempty"`
	Alias bool      `json:"alias,omitempty"` // short command names
	URL   int       `json:"url,omitempty"`   // bits: URLs with a query, with a user, that lead to others
	Prof  int       `json:"prof,omitempty"`  // with profiling, at a free port (1) or one that does not exist (2)
	Form  int       `json:"form,omitempty"`  // other ways to write options
	Sep   bool      `json:"sep,omitempty"`   // with -- before the arguments
	Link  bool      `json:"link,omitempty"`  // the original and the local version are given as symbolic links
	Fault string    `json:"fault,omitempty"`
	At    int       `json:"at,omitempty"`
	By    int       `json:"by,omitempty"`
}

var names = []string{"ref", "ref.bin", "my file.txt", "a.tar.gz", "über.dät", ".hidden", "dir.d/file", "dir/x.y.z", "trailing.", "100%.iso", "a&b?c#d.e", "c:colon.x", "UPPER.GOSYN", "gosync", "x.gosync2", "http.x", "v.1.log.1", "d.x/b.x", "a..a.", "new\nline.x", " space ", "tab\t.y", "x.\n"}
var lnames = []string{"local", "local.bin", "my copy.txt", "old/version 1.0", "~local", "l%41.z", "e:f", "l\n", "[::1"}

func draw(t *rapid.T, minBS, maxBS, maxLen int) tc {
	c := tc{}
	c.BS = gen.BlockSize(t, minBS, maxBS)
	if minBS > 1 && rapid.IntRange(0, 4).Draw(t, "default") == 0 {
		c.BS = 0
	}
	bs := c.BS
	if bs == 0 {
		bs = 8192
	}
	c.Ref = gen.Content(t, bs, maxLen)
	ref := gen.Build(c.Ref, nil)
	c.Local = gen.Edited(t, bs, len(ref), maxLen)
	c.Name = rapid.SampledFrom(names).Draw(t, "name")
	c.LName = rapid.SampledFrom(lnames).Draw(t, "lname")
	if rapid.IntRange(0, 3).Draw(t, "oldIndex") == 0 {
		c.OldIx = rapid.IntRange(1, 900).Draw(t, "oldIndexSize")
	}
	c.Index = rapid.SampledFrom([]string{"path", "abs", "url"}).Draw(t, "index")
	c.Src = rapid.SampledFrom([]string{"url", "url", "url", "path", "abs"}).Draw(t, "src")
	c.Out = rapid.SampledFrom([]string{"inplace", "inplace", "self", "symlink", "hardlink", "new", "existing"}).Draw(t, "out")
	if c.Out == "existing" {
		c.Old = gen.Pos(t, maxLen+maxLen/2, "oldSize")
	}
	if rapid.Bool().Draw(t, "pFlag") {
		c.P = rapid.IntRange(1, 6).Draw(t, "p")
	}
	c.CPU = rapid.SampledFrom([]int{1, 2, 3, 4, 8, 0}).Draw(t, "cpus")
	c.Alias = rapid.Bool().Draw(t, "alias")
	if rapid.IntRange(0, 3).Draw(t, "tls") == 0 {
		c.TLS = rapid.IntRange(1, 3).Draw(t, "https")
	}
	if rapid.IntRange(0, 5).Draw(t, "capitals") == 0 {
		c.Caps = rapid.IntRange(1, 3).Draw(t, "caps")
	}
	c.Link = rapid.IntRange(0, 4).Draw(t, "link") == 0
	if rapid.IntRange(0, 3).Draw(t, "urls") == 0 {
		c.URL = rapid.IntRange(1, 7).Draw(t, "url")
	}
	if rapid.IntRange(0, 7).Draw(t, "profile") == 0 {
		c.Prof = rapid.IntRange(1, 2).Draw(t, "profiling")
	}
	c.Form = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "form")
	if rapid.IntRange(0, 4).Draw(t, "separator") == 0 {
		c.Sep = true
		if rapid.Bool().Draw(t, "dash") {
			c.Name = "-" + c.Name
		}
		if rapid.Bool().Draw(t, "dash") {
			c.LName = "--" + c.LName
		}
	}
	return c
}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc { return draw(t, minBS, maxBS, maxLen) }
}

// genSizes draws block sizes that are far larger than the files.
func genSizes(t *rapid.T) tc {
	c := draw(t, 1, 24, 200)
	bits := rapid.SampledFrom([]uint{8, 15, 16, 20, 23, 24, 25, 31, 31, 32, 32}).Draw(t, "bits")
	c.BS = 1<<bits + rapid.IntRange(-1, 1).Draw(t, "off")
	if bits == 32 {
		c.BS = 1<<32 - 1 - rapid.SampledFrom([]int{0, 0, 1, 1 << 20, 1 << 30}).Draw(t, "below")
	}
	c.P = rapid.IntRange(1, 3).Draw(t, "p")
	return c
}

var buildFaults = []string{"b-missing", "b-dir", "b-bs", "b-noargs", "b-indexdir", "b-full", "b-self", "b-selflink"}
var patchFaults = []string{"p-args", "p-noindex", "p-noindexurl", "p-index500", "p-nolocal", "p-nosource", "p-404", "p-corrupt", "p-cut", "p-200", "p-drop", "p-outdir", "p-outparent", "p-sourcecut", "p-unreachable", "p-full"}

func genFault(t *rapid.T) tc {
	c := draw(t, 1, 24, 200)
	c.Fault = rapid.SampledFrom(append(append([]string{}, buildFaults...), patchFaults...)).Draw(t, "fault")
	c.At = rapid.IntRange(0, 2).Draw(t, "at")
	c.By = rapid.IntRange(0, 60).Draw(t, "by")
	switch c.Fault {
	case "p-404", "p-corrupt", "p-cut", "p-200", "p-drop", "p-unreachable":
		c.Src = "url"
	case "p-nosource", "p-sourcecut":
		if c.Src == "url" {
			c.Src = "path"
		}
	case "p-noindexurl", "p-index500":
		c.Index = "url"
	}
	return c
}

// global gives the options before the name of the command.
func (c tc) global() []string {
	switch c.Prof {
	case 1:
		return []string{"--profile", "--profilePort", "0"}
	case 2:
		return []string{"--profile", "--profilePort=99999"}
	}
	return nil
}

// option writes an option with its value.
func (c tc) option(name, value string) []string {
	switch c.Form {
	case 1:
		return []string{"--" + name + "=" + value}
	case 2:
		return []string{"-" + name, value}
	}
	if len(name) == 1 {
		return []string{"-" + name, value}
	}
	return []string{"--" + name, value}
}

// pathArg keeps a relative path from being taken for a flag or a URL.
func pathArg(name, dir, how string) string {
	if how == "abs" {
		return filepath.Join(dir, name)
	}
	return name
}

// loud writes the scheme of a url in capitals, which means the same.
func loud(s string) string {
	i := strings.Index(s, ":")
	return strings.ToUpper(s[:i]) + s[i:]
}

func urlOf(base, name string) string { return base + (&url.URL{Path: name}).EscapedPath() }

func checkIndex(got, ref []byte, bs int) error {
	if len(got) < oracle.HeaderSize {
		return vh.Failf("the index has only %d bytes", len(got))
	}
	if string(got[:6]) != "G0S9NC" {
		return vh.Failf("the index starts with %q", got[:6])
	}
	v := func(o int) uint16 { return binary.LittleEndian.Uint16(got[o:]) }
	want := oracle.Index(ref, bs, v(6), v(8), v(10))
	if !bytes.Equal(got, want) {
		return vh.Failf("the index of %d bytes at block size %d differs from the documented format: %s", len(ref), bs, e2e.Diff(got, want))
	}
	return nil
}

func run(c tc, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	ref := gen.Build(c.Ref, nil)
	local := gen.Build(c.Local, ref)
	put := func(name string, b []byte) {
		p := filepath.Join(dir, name)
		vh.Must(os.MkdirAll(filepath.Dir(p), 0o755))
		cli.Write(p, b)
	}
	abs := func(n string) string { return filepath.Join(dir, n) }
	bs := c.BS
	if bs == 0 {
		bs = 8192
	}
	name := c.Name
	ix := cli.IndexPath(name)
	if c.Fault == "b-self" || c.Fault == "b-selflink" {
		name, ix = "x.gosync", "x.gosync"
	}
	if c.Link && c.Fault == "" {
		for n, b := range map[string][]byte{name: ref, c.LName: local} {
			real := "files/" + url.PathEscape(n) + ".dat"
			put(real, b)
			vh.Must(os.MkdirAll(filepath.Dir(abs(n)), 0o755))
			vh.Must(os.Symlink(abs(real), abs(n)))
		}
		r.Class("symbolic links")
	} else {
		put(name, ref)
		put(c.LName, local)
	}
	buildCmd, patchCmd := "build", "patch"
	if c.Alias {
		buildCmd, patchCmd = "b", "p"
	}

	// build
	args := append(c.global(), buildCmd)
	if c.BS != 0 {
		args = append(args, c.option("blocksize", strconv.Itoa(c.BS))...)
	}
	mustFail := strings.HasPrefix(c.Fault, "b-")
	in := name
	switch c.Fault {
	case "b-missing":
		in = "missing.bin"
	case "b-dir":
		in = "a directory"
		vh.Must(os.Mkdir(abs(in), 0o755))
	case "b-bs":
		args = []string{buildCmd, "--blocksize", []string{"0", "-1", "-4096", "4294967296", "many", "1.5", "-9223372036854775808"}[c.By%7]}
	case "b-noargs":
		in = ""
	case "b-indexdir":
		vh.Must(os.Mkdir(abs(ix), 0o755))
	case "b-full":
		vh.Must(os.Symlink("/dev/full", abs(ix)))
	case "b-selflink":
		// the index name is a link to the file itself
		name = "y.bin"
		in = name
		put(name, ref)
		ix = "y.gosync"
		if c.By%2 == 0 {
			vh.Must(os.Symlink("y.bin", abs(ix)))
		} else {
			vh.Must(os.Link(abs("y.bin"), abs(ix)))
		}
	default:
		if c.OldIx > 0 && ix != name {
			put(ix, gen.Expand(7, c.OldIx))
		}
	}
	if c.Sep {
		args = append(args, "--")
	}
	if in != "" {
		args = append(args, in)
	}
	res := cli.Run(dir, c.CPU, args...)
	if res.Hung != "" || res.Crashed() {
		return vh.Failf("%v", res)
	}
	if !bytes.Equal(cli.Read(abs(name)), ref) {
		return vh.Failf("building the index changed the file: %v; %s", res, e2e.Diff(cli.Read(abs(name)), ref))
	}
	if mustFail {
		r.Class("must fail: " + c.Fault)
		r.NonTrivial()
		if res.OK() {
			return vh.Failf("success although it must fail (%s): %v", c.Fault, res)
		}
		return nil
	}
	if !res.OK() {
		return vh.Failf("building the index failed: %v", res)
	}
	built := cli.Read(abs(ix))
	if built == nil {
		return vh.Failf("build made no index %q: %v, files %q", ix, res, cli.List(dir))
	}
	if err := checkIndex(built, ref, bs); err != nil {
		return err
	}

	if c.BS > 1<<26 {
		// blocks are read as a whole
		r.Class("block sizes of more than 64 MiB")
		r.NonTrivial()
		return nil
	}

	// patch
	docs := map[string]*cli.Doc{"ref": {Data: ref}, "ix": {Data: built}}
	mustFailPatch, mayFail := false, false
	switch c.Fault {
	case "p-404", "p-corrupt", "p-cut", "p-200", "p-drop":
		docs["ref"].Fault, docs["ref"].At, docs["ref"].By = c.Fault[2:], c.At, c.By
		mayFail = true
	case "p-index500":
		docs["ix"].Fault = []string{"500", "404", "drop"}[c.By%3]
		mustFailPatch = true
	}
	docName := url.PathEscape(name)
	served := map[string]*cli.Doc{name: docs["ref"], "index of " + docName: docs["ix"]}
	base := cli.Serve(served)
	// at gives the URL of a document
	at := func(name string) string {
		u := urlOf(base, name)
		if d := served[name]; c.URL&1 != 0 {
			d.Query = "v=1.2&n=a%20b&http://c=%2F;x"
			u += "?" + d.Query
		}
		if d := served[name]; c.URL&2 != 0 {
			d.User, d.Password = "me@home", "a:b/c?"
			u = strings.Replace(u, "//", "//me%40home:a:b%2Fc%3F@", 1)
		}
		return u
	}
	if c.URL&4 != 0 {
		for _, n := range []string{name, "index of " + docName} {
			to := cli.Doc{Redirect: at(n)}
			cli.Also(n+" moved", &to)
			served[n+" moved"] = &to
		}
		was := at
		at = func(name string) string { return was(name + " moved") }
		r.Class("redirected")
	}
	r.ClassIf(c.URL&3 != 0 && (c.Src == "url" || c.Index == "url"), "URL with a query or a user")
	ixArg := pathArg(ix, dir, c.Index)
	if c.Index == "url" {
		ixArg = at("index of " + docName)
		if c.TLS&1 != 0 {
			ixArg = cli.Secure(ixArg)
			r.Class("index by https")
		}
		if c.Caps&1 != 0 {
			ixArg = loud(ixArg)
		}
	}
	srcArg := pathArg(name, dir, c.Src)
	if c.Src == "url" {
		srcArg = at(name)
		if c.TLS&2 != 0 {
			srcArg = cli.Secure(srcArg)
			r.Class("source by https")
		}
		if c.Caps&2 != 0 {
			srcArg = loud(srcArg)
		}
	}
	localArg := c.LName
	target := c.LName
	var outArgs []string
	switch c.Out {
	case "self":
		outArgs = []string{abs(c.LName)}
	case "symlink":
		vh.Must(os.Symlink(abs(c.LName), abs("the link")))
		outArgs = []string{"the link"}
	case "hardlink":
		vh.Must(os.Link(abs(c.LName), abs("the link")))
		outArgs = []string{"the link"}
	case "new", "existing":
		target = "the output.bin"
		if c.Out == "existing" {
			put(target, gen.Expand(9, c.Old))
		}
		outArgs = []string{target}
	}
	switch c.Fault {
	case "p-noindex":
		ixArg = "missing.gosync"
		mustFailPatch = true
	case "p-noindexurl":
		ixArg = base + "missing"
		mustFailPatch = true
	case "p-nolocal":
		localArg = "missing"
		mustFailPatch = true
	case "p-nosource":
		srcArg = "missing source"
		mayFail = true
	case "p-sourcecut":
		// a local source that is shorter than the index says
		if len(ref) > 0 {
			cli.Write(abs(name), ref[:c.By%len(ref)])
		}
		mayFail = true
	case "p-unreachable":
		srcArg = "http://127.0.0.1:1/" + docName
		mayFail = true
	case "p-outdir":
		target = "a directory"
		vh.Must(os.Mkdir(abs(target), 0o755))
		outArgs = []string{target}
		mustFailPatch = true
	case "p-outparent":
		outArgs = []string{"no such/place"}
		mustFailPatch = true
	case "p-full":
		if len(ref) == 0 {
			return nil
		}
		vh.Must(os.Symlink("/dev/full", abs("full")))
		outArgs = []string{"full"}
		mustFailPatch = true
	}
	pargs := append(c.global(), patchCmd)
	if c.P > 0 {
		pargs = append(pargs, c.option("p", strconv.Itoa(c.P))...)
	}
	if c.Sep {
		pargs = append(pargs, "--")
	}
	pargs = append(pargs, localArg, ixArg, srcArg)
	pargs = append(pargs, outArgs...)
	if c.Fault == "p-args" {
		n := []int{1, 2, 3, 6}[c.By%4]
		pargs = append(pargs, "x", "y", "z")
		for i := 1; i < len(pargs); i++ {
			if pargs[i] == localArg {
				pargs = pargs[:min(len(pargs), i+n-1)]
				if n == 6 {
					pargs = append(pargs[:i:i], localArg, ixArg, srcArg, "out1", "out2")
				}
				break
			}
		}
		mustFailPatch = true
	}
	before := cli.Read(abs(c.LName))
	res = cli.Run(dir, c.CPU, pargs...)
	if res.Hung != "" || res.Crashed() {
		return vh.Failf("%v", res)
	}
	_, hit := cli.Requests(docs["ref"])
	if c.Fault != "p-sourcecut" && !bytes.Equal(cli.Read(abs(name)), ref) {
		return vh.Failf("patching changed the source: %v", res)
	}
	if c.Index != "url" && !bytes.Equal(cli.Read(abs(ix)), built) {
		return vh.Failf("patching changed the index: %v", res)
	}
	if res.OK() {
		if mustFailPatch {
			return vh.Failf("success although it must fail (%s): %v", c.Fault, res)
		}
		if got := cli.Read(abs(target)); !bytes.Equal(got, ref) {
			return vh.Failf("%v, but the output is wrong: %s", res, e2e.Diff(got, ref))
		}
		if target != c.LName && !bytes.Equal(cli.Read(abs(c.LName)), before) {
			return vh.Failf("%v changed the local file", res)
		}
	} else {
		if !mustFailPatch && !mayFail {
			return vh.Failf("patching failed without cause: %v", res)
		}
		if mayFail && docs["ref"].Fault != "" && !hit {
			return vh.Failf("patching failed without cause: %v", res)
		}
		if !bytes.Equal(cli.Read(abs(c.LName)), before) {
			return vh.Failf("a failed patch changed the local file: %v; %s", res, e2e.Diff(cli.Read(abs(c.LName)), before))
		}
		r.Class("failed: " + c.Fault)
	}
	for _, f := range cli.List(dir) {
		if strings.HasPrefix(f, "tmp_") && c.LName != f {
			return vh.Failf("a temporary file remains: %v, %s", res, f)
		}
	}
	r.ClassIf(c.Prof > 0, "profiling")
	r.ClassIf(c.Sep, "after --")
	r.ClassIf(res.OK(), "patched "+c.Out+", source "+c.Src+", index "+c.Index)
	if (len(ref) > 0 && len(local) > 0) || !res.OK() {
		r.NonTrivial()
	}
	return nil
}

const rule = "a file with generated content (as in C01) and name is indexed by 'gosync build' at a generated or the default block size, and a generated local version is patched by 'gosync patch' with the index as path or URL (http or https), the source as URL or path, in place (named once, twice or by a symbolic or hard link) or to an output, also when the files are given as symbolic links, on 1 to 8 processors"

var check = &vh.Check{
	ID: "C19",
	Parts: []*vh.Part{
		vh.NewPart("roundtrip", rule+"; non-trivial: both files not empty", 520, 6000, false, genCase(1, 24, 200), run),
		vh.NewPart("roundtrip-large", rule+"; up to 60000 bytes, block sizes 200 to 9000 or the default; non-trivial: both files not empty", 160, 2500, false, genCase(200, 9000, 60000), run),
		vh.NewPart("roundtrip-huge", rule+"; up to 400000 bytes, block sizes 60000 to 140000; non-trivial: both files not empty", 8, 200, false, genCase(60000, 140000, 400000), run),
		vh.NewPart("block-sizes", rule+"; small files, block sizes around powers of two from 2^8 to 2^25; only indexing from 2^31 to 2^32-1; non-trivial: both files not empty", 12, 300, false, genSizes, run),
		vh.NewPart("slow", "a patch from a web server that takes seconds for one of its answers, before or in the middle of it; non-trivial: it was asked for that", 1, 12, false, genSlow, runSlow),
		vh.NewPart("giant", "the index of a file of more than 2 or 4 GiB (mostly a hole) is built, or a small file is patched from such a file; non-trivial: more than 4 GiB", 1, 10, false, genGiant, runGiant),
		vh.NewPart("ask", "the first requests of patching a small file to one of more than 2 or 4 GiB: each is for whole blocks of the file; non-trivial: more than 4 GiB", 3, 60, false, genAsk, runGiant),
		vh.NewPart("streams", "up to 8 MB, almost all of which is fetched with a generated number of streams, from a server that takes its time; also senseless numbers; non-trivial: more fetches than streams, or a senseless number", 24, 400, false, genStreams, runStreams),
		vh.NewPart("changing", "the index of a pipe, or of a file that grows or shrinks while it is read, is refused or that of the bytes that it declares; non-trivial: all", 60, 1500, false, genChanging, runChanging),
		vh.NewPart("failures", rule+"; with a failure: missing or unsuitable files, bad flags and arguments, full devices, failing servers; non-trivial: the failure happened or both files not empty", 520, 6000, false, genFault, run),
	},
	Procs:       2,
	Assumptions: []string{"runs as root, so permission failures are represented by missing and wrong kinds of files and /dev/full"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
