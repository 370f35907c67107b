package c13

import (
	"testing"

	"pgregory.net/rapid"
	"verif/bsim"
	"verif/vh"
)

const rule = "histories of span requests (ascending or arbitrary, overlapping or not), fetch completions in any order and consumption steps, over random block counts, short last blocks, concurrency limits, request splitting and verification; each step runs until the source is idle; then everything is completed latest first and consumed; non-trivial: several fetches, two of them at once"

var check = &vh.Check{
	ID: "C13",
	Parts: []*vh.Part{
		vh.NewPart("short", rule, 40000, 1500000, true, func(t *rapid.T) bsim.Case { return bsim.Gen(t, 12, 14, false) }, bsim.Run),
		vh.NewPart("long", rule+"; up to 80 steps and 60 blocks", 10000, 400000, true, func(t *rapid.T) bsim.Case { return bsim.Gen(t, 60, 80, false) }, bsim.Run),
		vh.NewPart("wide", rule+"; requests for up to 800 blocks in many fetches, up to 40 at once", 2000, 60000, true, func(t *rapid.T) bsim.Case { return bsim.GenWide(t, false) }, bsim.Run),
		vh.NewPart("http", "the same over loopback HTTP: a server that holds every request until as many are open as are allowed or left, and answers them in a generated order; non-trivial: at least two requests at once", 1200, 60000, false, genHTTP, runHTTP),
	},
	Procs:       4,
	Assumptions: []string{"spans lie within the file", "steps run to quiescence, so schedules are explored at the granularity of requests, completions and deliveries (C23 covers finer interleavings)"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
