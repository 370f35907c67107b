package c20

import (
	"bytes"
	"encoding/binary"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type dmg struct {
	K  string `json:"k"`
	At int    `json:"at,omitempty"`
	By int    `json:"by,omitempty"`
}

type tc struct {
	BS    int       `json:"bs"`
	Ref   []gen.Seg `json:"ref"`
	Local []gen.Seg `json:"local"`
	D     []dmg     `json:"d"`
	URL   bool      `json:"url,omitempty"`  // the index is fetched from a server
	Cut   bool      `json:"cut,omitempty"`  // a truncated index arrives over a broken connection
	Path  bool      `json:"path,omitempty"` // the source is a local file
	Sep   bool      `json:"sep,omitempty"`  // separate output
	CPU   int       `json:"cpu,omitempty"`
}

var kinds = []string{"trunc", "trunc", "magic", "major", "minor", "missing", "extra", "dup", "partial", "flip", "flip", "flip", "zerobs", "negsize", "bigger", "garbage", "empty", "foreign"}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS)}
		c.Ref = gen.Content(t, c.BS, maxLen)
		ref := gen.Build(c.Ref, nil)
		c.Local = gen.Edited(t, c.BS, len(ref), maxLen)
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		n := 1
		if k == "flip" || k == "missing" || k == "extra" {
			n = rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "times")
		}
		for i := 0; i < n; i++ {
			c.D = append(c.D, dmg{K: k, At: rapid.IntRange(0, 9999).Draw(t, "at"), By: rapid.IntRange(0, 255).Draw(t, "by")})
		}
		c.URL = rapid.Bool().Draw(t, "url")
		c.Cut = rapid.Bool().Draw(t, "cut")
		c.Path = rapid.IntRange(0, 3).Draw(t, "path") == 0
		c.Sep = rapid.IntRange(0, 3).Draw(t, "sep") == 0
		c.CPU = rapid.SampledFrom([]int{1, 2, 4, 0}).Draw(t, "cpus")
		return c
	}
}

// damage applies d; must is why the result has to be rejected.
func damage(ix []byte, d dmg, ref, local []byte, bs int, cut bool) (out []byte, must string, cutAt int) {
	body := len(ix) - oracle.HeaderSize
	entries := body / oracle.EntrySize
	at := func(n int) int { return d.At * n / 10000 } // spread evenly over n places
	switch d.K {
	case "trunc":
		n := at(len(ix))
		if d.By%4 == 0 && entries > 0 { // exactly between entries
			n = oracle.HeaderSize + at(entries)*oracle.EntrySize
		}
		if cut {
			return ix, "the connection is cut off within the index", n
		}
		return ix[:n:n], "truncated", -1
	case "magic":
		ix[at(6)] ^= byte(1 + d.By%255)
		return ix, "wrong magic", -1
	case "major":
		v := uint16(1 + d.By%255)
		if d.At%2 == 0 {
			v <<= 8
		}
		binary.LittleEndian.PutUint16(ix[6:], binary.LittleEndian.Uint16(ix[6:])+v)
		return ix, "other major version", -1
	case "minor":
		ix[8+d.At%4] ^= byte(1 + d.By%255)
		return ix, "", -1
	case "missing":
		if entries == 0 {
			return ix, "", -1
		}
		o := oracle.HeaderSize + at(entries)*oracle.EntrySize
		return append(ix[:o:o], ix[o+oracle.EntrySize:]...), "an entry is missing", -1
	case "extra", "dup":
		o := oracle.HeaderSize + at(entries+1)*oracle.EntrySize
		e := gen.Expand(uint64(d.By), oracle.EntrySize)
		if d.K == "dup" && entries > 0 {
			o = min(o, len(ix)-oracle.EntrySize)
			e = ix[o : o+oracle.EntrySize]
		}
		return append(append(append([]byte{}, ix[:o]...), e...), ix[o:]...), "an entry too many", -1
	case "partial":
		n := 1 + d.By%(oracle.EntrySize-1)
		return append(ix[:len(ix):len(ix)], gen.Expand(uint64(d.By), n)...), "ends within an entry", -1
	case "flip":
		if entries == 0 {
			return ix, "", -1
		}
		ix[oracle.HeaderSize+at(body)] ^= byte(1 + d.By%255)
		return ix, "", -1
	case "zerobs":
		copy(ix[20:24], []byte{0, 0, 0, 0})
		return ix, "block size zero", -1
	case "negsize":
		ix[19] |= 0x80
		return ix, "negative size", -1
	case "bigger": // the declared size does not fit the number of entries
		binary.LittleEndian.PutUint64(ix[12:], uint64(len(ref)+bs*(1+d.At%50)))
		if d.By%3 == 0 && len(ref) > bs {
			binary.LittleEndian.PutUint64(ix[12:], uint64(at(len(ref)-bs)))
		}
		if d.By%16 == 1 {
			ix[18] = 0x7f
		}
		switch d.By % 16 { // the nearest sizes that do not fit, and none at all
		case 2, 5:
			binary.LittleEndian.PutUint64(ix[12:], 0)
		case 7:
			binary.LittleEndian.PutUint64(ix[12:], uint64(entries*bs+1))
		case 10:
			binary.LittleEndian.PutUint64(ix[12:], uint64(max(0, entries-1)*bs))
		case 13:
			binary.LittleEndian.PutUint64(ix[12:], 1<<63-1-uint64(d.At%3))
		}
		n := binary.LittleEndian.Uint64(ix[12:])
		if (n+uint64(bs)-1)/uint64(bs) == uint64(entries) {
			return ix, "", -2 // cannot be told apart
		}
		return ix, "declared size does not fit the entries", -1
	case "garbage":
		n := d.At % 200
		g := gen.Expand(uint64(d.By), n)
		if n >= 6 && d.By%2 == 0 {
			copy(g, ix[:min(n, 6)])
			// a valid magic followed by other versions
			if n > 7 {
				g[6] |= 1
			}
		}
		return g, "not an index", -1
	case "empty":
		return []byte{}, "empty", -1
	case "foreign": // one of the files themselves
		if d.By%2 == 0 {
			return append([]byte{}, ref...), "the reference instead of its index", -1
		}
		return append([]byte{}, local...), "the local file instead of an index", -1
	}
	panic(d.K)
}

func run(c tc, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	ref := gen.Build(c.Ref, nil)
	local := gen.Build(c.Local, ref)
	refP, ixP, locP := filepath.Join(dir, "ref.bin"), filepath.Join(dir, "ref.gosync"), filepath.Join(dir, "local.bin")
	cli.Write(refP, ref)
	cli.Write(locP, local)

	// the versions the tool writes
	cli.Write(filepath.Join(dir, "e.x"), nil)
	res := cli.Run(dir, 0, "build", "e.x")
	h := cli.Read(filepath.Join(dir, "e.gosync"))
	if !res.OK() || len(h) < oracle.HeaderSize {
		return vh.Failf("building the index of an empty file: %v, %d bytes", res, len(h))
	}
	v := func(o int) uint16 { return binary.LittleEndian.Uint16(h[o:]) }
	ix := oracle.Index(ref, c.BS, v(6), v(8), v(10))
	must, cutAt := "", -1
	for _, d := range c.D {
		var m string
		ix, m, cutAt = damage(append([]byte{}, ix...), d, ref, local, c.BS, c.URL && c.Cut)
		if m != "" {
			must = m
		}
		if cutAt == -2 {
			return nil
		}
		r.Class(d.K)
	}
	cli.Write(ixP, ix)
	if err := diff(c, dir, r, ix, ref, local, cutAt < 0); err != nil {
		return err
	}
	rd := &cli.Doc{Data: ref}
	xd := &cli.Doc{Data: ix}
	if cutAt >= 0 {
		xd.Fault, xd.By = "cut", cutAt
	}
	base := cli.Serve(map[string]*cli.Doc{"ref": rd, "ix": xd})
	args := []string{"patch", "local.bin", "ref.gosync", base + "ref"}
	if c.URL {
		args[2] = base + "ix"
	}
	if c.Path {
		args[3] = "ref.bin"
	}
	target := locP
	if c.Sep {
		target = filepath.Join(dir, "out")
		args = append(args, "out")
	}
	res = cli.Run(dir, c.CPU, args...)
	if res.Hung != "" || res.Crashed() {
		return vh.Failf("%v (index: %s)", res, must)
	}
	if !bytes.Equal(cli.Read(refP), ref) {
		return vh.Failf("patching changed the source: %v", res)
	}
	if res.OK() {
		if must != "" {
			return vh.Failf("a damaged index was accepted (%s): %v", must, res)
		}
		if got := cli.Read(target); !bytes.Equal(got, ref) {
			return vh.Failf("%v with a damaged index (%s), but the output is wrong: %s", res, c.D[0].K, e2e.Diff(got, ref))
		}
		r.Class("still right")
		r.NonTrivial()
		return nil
	}
	if got := cli.Read(locP); !bytes.Equal(got, local) {
		return vh.Failf("a failed patch (%v) changed the local file: %s", res, e2e.Diff(got, local))
	}
	r.Class("rejected")
	if must != "" || len(ref) > 0 {
		r.NonTrivial()
	}
	return nil
}

// diff gives the same index to the diff command, which knows no file size.
func diff(c tc, dir string, r *vh.Rec, ix, ref, local []byte, whole bool) error {
	must := false
	if whole {
		switch c.D[0].K {
		case "magic", "major", "zerobs", "negsize", "garbage", "empty", "foreign":
			must = true
		case "trunc":
			must = len(ix) < oracle.HeaderSize || (len(ix)-oracle.HeaderSize)%oracle.EntrySize != 0
		}
	}
	res := cli.Run(dir, c.CPU, "diff", "local.bin", "ref.gosync")
	if res.Hung != "" || res.Crashed() {
		return vh.Failf("%v (damage: %s)", res, c.D[0].K)
	}
	if must && res.OK() {
		return vh.Failf("a damaged index (%s, %d bytes) was accepted: %v", c.D[0].K, len(ix), res)
	}
	if !whole && !res.OK() {
		return vh.Failf("a correct index was rejected: %v", res)
	}
	r.ClassIf(must, "rejected by diff")
	for name, b := range map[string][]byte{"local.bin": local, "ref.gosync": ix, "ref.bin": ref} {
		if got := cli.Read(filepath.Join(dir, name)); !bytes.Equal(got, b) {
			return vh.Failf("%v changed %s: %s", res, name, e2e.Diff(got, b))
		}
	}
	return nil
}

const rule = "an index of generated content, written by the oracle as documented, is damaged (cut at any byte or in transit, magic, versions, entries missing, added or repeated, checksum bits flipped, impossible sizes, garbage, another file) and given to 'gosync patch' as a path or URL and to 'gosync diff'; non-trivial: the damage must be rejected, or the patch succeeded, or the reference is not empty"

var check = &vh.Check{
	ID: "C20",
	Parts: []*vh.Part{
		vh.NewPart("damage", rule, 1250, 14000, false, genCase(1, 24, 200), run),
		vh.NewPart("damage-large", rule+"; up to 30000 bytes", 200, 3000, false, genCase(60, 2000, 30000), run),
	},
	Procs:       2,
	Assumptions: []string{"damage that leaves a consistent index of another file (entries swapped whole, a size that differs within the last block) cannot be told from a valid index and is not generated"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
