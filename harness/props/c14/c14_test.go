package c14

import (
	"testing"

	"pgregory.net/rapid"
	"verif/bsim"
	"verif/vh"
)

const rule = "histories of requests, good, failing and corrupt completions in any order, consumption of results and errors, and closes (repeated, and at any point), over random concurrency limits and splitting; then running fetches end, the consumer drains both channels and uses the source again; non-trivial: several fetches"

var check = &vh.Check{
	ID: "C14",
	Parts: []*vh.Part{
		vh.NewPart("short", rule, 64000, 1500000, true, func(t *rapid.T) bsim.Case { return bsim.Gen(t, 12, 14, true) }, bsim.Run),
		vh.NewPart("long", rule+"; up to 50 steps", 16000, 400000, true, func(t *rapid.T) bsim.Case { return bsim.Gen(t, 40, 50, true) }, bsim.Run),
		vh.NewPart("wide", rule+"; requests for up to 800 blocks in many fetches, up to 40 at once", 3000, 80000, true, func(t *rapid.T) bsim.Case { return bsim.GenWide(t, true) }, bsim.Run),
	},
	Assumptions: []string{"spans lie within the file", "a source that holds an unread error shuts down when the error has been read, as its documentation says"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
