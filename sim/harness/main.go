//go:build go1.25

// The harness runs the simulations of one property: the parent process spreads seeds over worker
// processes, confirms and minimises what they report, and writes replay file and evidence.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

var (
	fMode     = flag.String("mode", "check", "check, worker, serve, solo, replay, list")
	fProp     = flag.String("prop", "", "property")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Uint64("seed", 1, "base seed")
	fFrom     = flag.Int("from", 0, "first run")
	fTo       = flag.Int("to", 0, "end of runs")
	fRuns     = flag.Int("runs", 0, "number of runs; 0: the tier's")
	fKeep     = flag.Bool("keep", false, "keep process state between runs")
	fReplay   = flag.String("replay", "", "replay file")
	fEvidence = flag.String("evidence", "", "evidence file")
	fReplays  = flag.String("replays", "", "directory for replay files")
	fKnown    = flag.String("known", "", "known findings")
	fTrace    = flag.Bool("trace", false, "print the trace")
	fStop     = flag.Bool("stop", false, "stop at the first violation")
	fBudget   = flag.Int("budget", 0, "stop starting new batches after this many seconds; 0: never")
	fShrink   = flag.Int("shrink", 40, "seconds to spend on minimising a violation")
	fRace     = flag.String("race", "", "the harness built with the race detector")
	fNote     = flag.String("note", "", "note for the evidence file")
)

func main() {
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	switch *fMode {
	case "list":
		fmt.Println(strings.Join(scenarioIDs(), "\n"))
	case "check":
		os.Exit(check())
	case "worker":
		limitMemory()
		worker()
	case "serve":
		limitMemory()
		serve()
	case "solo":
		limitMemory()
		sc := scenarios[*fProp]
		r := runOnce(sc, simrt.NewSource(*fSeed), *fTrace)
		for _, l := range r.Lines {
			fmt.Println(l)
		}
		if r.Viol != nil {
			fmt.Println(r.Viol)
		}
		fmt.Printf("hash %016x steps %d notes %q counts %v\n", r.Hash, r.Steps, r.Notes, r.Counts)
	case "replay":
		os.Exit(replayMode())
	default:
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
}

// limitMemory keeps a run-away allocation inside this process.
func limitMemory() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	if simrt.Racing { // which maps all of the address space
		// Memory is not used again within a run (see runOnce): the detector may mistake what was there before for a race.
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2 << 30)
		return
	}
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

// batchStats is what a worker reports at its end.
type batchStats struct {
	Runs, Nontrivial int
	Steps, Slices    int64
	Switches         int64
	SimNanos         int64
	Counts           map[string]int64
	Hashes, Inters   []uint64 // of non-trivial runs
	AllHash          uint64
	Notes            []string
}

type foundViol struct {
	Index int
	Viol  simrt.Violation
	Hash  uint64
}

// worker executes a batch and prints one line before each run, so that a crash can be attributed.
// VERIF_SLOW=1s makes workers name the runs that take longer.
var slow, _ = time.ParseDuration(os.Getenv("VERIF_SLOW"))

func worker() {
	sc := scenarios[*fProp]
	simrt.KeepState = *fKeep
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	st := batchStats{Counts: map[string]int64{}}
	found := 0
	ks := loadKnown()
	for i := *fFrom; i < *fTo; i++ {
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		began := time.Now()
		r := runOnce(sc, simrt.NewSource(runSeed(*fSeed, sc.id, i)), false)
		if slow > 0 && time.Since(began) > slow {
			fmt.Fprintf(os.Stderr, "%s run %d took %v\n", sc.id, i, time.Since(began))
		}
		st.add(r)
		if r.Viol != nil {
			k := findKnown(ks, r.Viol.Class, r.Viol.Msg)
			if k != nil {
				if k.seen++; k.seen > 2 {
					continue
				}
			}
			b, _ := json.Marshal(foundViol{i, *r.Viol, r.Hash})
			fmt.Fprintf(out, "V %s\n", b)
			if k == nil {
				found++
			}
			if *fStop || found >= 20 {
				break
			}
		}
	}
	b, _ := json.Marshal(st)
	fmt.Fprintf(out, "R %s\n", b)
	out.Flush()
}

func (st *batchStats) add(r *result) {
	st.Runs++
	st.Steps += r.Steps
	st.Slices += r.Slices
	st.Switches += r.Switches
	st.SimNanos += int64(r.Sim)
	nontrivial := r.Switches > 2
	for k, v := range r.Counts {
		st.Counts[k] += v
		if strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "net.") || strings.HasPrefix(k, "nontrivial.") {
			nontrivial = true
		}
	}
	if nontrivial {
		st.Nontrivial++
		st.Hashes = append(st.Hashes, r.Hash)
		st.Inters = append(st.Inters, r.Inter)
	}
	st.AllHash = st.AllHash*1099511628211 + r.Hash
	if len(st.Notes) < 2 && len(r.Notes) > 0 {
		st.Notes = append(st.Notes, fmt.Sprintf("%s; %d steps, %d task switches, %v simulated, faults %s",
			strings.Join(r.Notes, "; "), r.Steps, r.Switches, r.Sim, faultList(r.Counts)))
	}
}

func faultList(c map[string]int64) string {
	var fs []string
	for k, v := range c {
		if strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "net.") {
			fs = append(fs, fmt.Sprintf("%s=%d", k, v))
		}
	}
	if len(fs) == 0 {
		return "none"
	}
	sortStrings(fs)
	return strings.Join(fs, " ")
}

// candidate is one execution to try while confirming or shrinking.
type candidate struct {
	Prefix  []uint64 // run seeds to execute first, with state kept
	Seed    uint64
	Choices map[string][]uint64
	Trace   bool
	Record  string // file that gets the choices as they are made
}

type outcome struct {
	Viol    *simrt.Violation
	Hash    uint64
	Steps   int64
	Choices map[string][]uint64
	Lines   []string
	Notes   []string
	Counts  map[string]int64
}

func execCandidate(sc *scenario, c *candidate) outcome {
	if len(c.Prefix) > 0 {
		simrt.KeepState = true
		for _, p := range c.Prefix {
			runOnce(sc, simrt.NewSource(p), false)
		}
	}
	src := simrt.NewSource(c.Seed)
	if c.Choices != nil {
		src = simrt.ReplaySource(c.Choices)
	}
	if c.Record != "" {
		if f, err := os.Create(c.Record); err == nil {
			defer f.Close()
			src.OnDraw = func(stream string, v uint64) { fmt.Fprintf(f, "%s %d\n", stream, v) }
		}
	}
	r := runOnce(sc, src, c.Trace)
	return outcome{r.Viol, r.Hash, r.Steps, r.Choices, r.Lines, r.Notes, r.Counts}
}

// serve executes candidates read from standard input.
func serve() {
	sc := scenarios[*fProp]
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := bufio.NewWriter(os.Stdout)
	for {
		var c candidate
		if err := in.Decode(&c); err != nil {
			return
		}
		o := execCandidate(sc, &c)
		b, _ := json.Marshal(o)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
