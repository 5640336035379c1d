//go:build go1.25

package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// A scenario sets up one kind of simulated system and checks one property.
type scenario struct {
	id       string
	run      func(s *simrt.Sim)
	quick    int // runs in the quick tier
	thorough int
	cap      int64 // steps
	rule     string
	real     []string // components that run real code
	stub     []string // components that are simulated
	guard    bool     // accounts for memory
	race     [2]int   // runs under the race detector, in the two tiers
}

var scenarios = map[string]*scenario{}

func register(sc *scenario) { scenarios[sc.id] = sc }

func scenarioIDs() []string {
	var ids []string
	for id := range scenarios {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// result is the outcome of one run.
type result struct {
	Viol     *simrt.Violation
	Hash     uint64
	Inter    uint64
	Steps    int64
	Slices   int64
	Switches int64
	Sim      time.Duration
	Counts   map[string]int64
	Notes    []string
	Choices  map[string][]uint64
	Lines    []string
	Wall     time.Duration
}

func runSeed(seed uint64, prop string, index int) uint64 {
	return simrt.Mix(seed, fmt.Sprintf("%s/%d", prop, index))
}

var bufSizes = []int{4096, 64, 128, 512}

// runOnce executes one run.
var racedRuns int

func runOnce(sc *scenario, src *simrt.Source, trace bool) *result {
	s := simrt.New(src)
	s.Trace = trace
	if sc.cap > 0 {
		s.SetCap(sc.cap)
	}
	knobs := src.Stream("knobs")
	s.BufSize = bufSizes[knobs.Pick(6, 2, 1, 1)]
	t0 := time.Now()
	simrt.Exec(s, func() { sc.run(s) })
	r := &result{
		Viol: s.Violation(), Hash: s.Hash(), Inter: s.Interleaving(), Steps: s.Steps(), Slices: s.Slices(),
		Switches: s.Switches, Sim: s.Now(), Counts: s.Counts, Notes: s.Notes, Lines: s.Lines, Wall: time.Since(t0),
	}
	if r.Viol == nil {
		r.Viol = raceCheck()
	}
	if simrt.Racing {
		if racedRuns++; racedRuns%64 == 0 {
			runtime.GC()
		}
	}
	r.Choices = src.Choices()
	return r
}

// signature groups violations: of those with one signature only one is reported.
func signature(v *simrt.Violation) string {
	if v.Class != "panic" {
		return v.Class
	}
	msg := v.Msg
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		msg = msg[i:]
	}
	if i := strings.Index(msg, ".go:"); i >= 0 {
		if j := strings.LastIndexAny(msg[:i], "/\n"); j >= 0 {
			return "panic " + msg[j+1:i+4]
		}
	}
	return "panic"
}
