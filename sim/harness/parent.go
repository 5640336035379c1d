//go:build go1.25

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func sortStrings(s []string) { sort.Strings(s) }

const (
	batchSize  = 250
	runTimeout = 120 * time.Second
)

type workerRun struct {
	from, to int
	stats    *batchStats
	viols    []foundViol
	crashed  bool
	last     int    // last run started
	detail   string // of the crash
	hung     bool
}

func self() string { return selfOr(false) }

func selfOr(race bool) string {
	if race {
		return *fRace
	}
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

func crashDetail(stderr string) string {
	lines := strings.Split(stderr, "\n")
	where := ""
	for _, l := range lines {
		if i := strings.Index(l, "go-thrift/"); i >= 0 && !strings.HasPrefix(l, "\t") && !strings.Contains(l, "zzverifsim") {
			l = l[i+len("go-thrift/"):]
			if j := strings.LastIndexByte(l, '('); j > 0 {
				where = " in " + l[:j]
			}
			break
		}
	}
	for _, l := range lines {
		for _, m := range []string{"fatal error:", "runtime: goroutine stack exceeds", "panic:", "out of memory", "signal "} {
			if strings.Contains(l, m) {
				return crashClass(l) + where
			}
		}
	}
	return "the process died"
}

func crashClass(l string) string {
	switch {
	case strings.Contains(l, "stack exceeds"), strings.Contains(l, "stack overflow"):
		return "stack overflow"
	case strings.Contains(l, "out of memory"), strings.Contains(l, "cannot allocate"):
		return "out of memory"
	}
	return l
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

var raceDirs struct {
	sync.Mutex
	all []string
}

// command makes the command of a worker process.
func command(race bool, args ...string) *exec.Cmd {
	cmd := exec.Command(selfOr(race), args...)
	if race {
		dir, err := os.MkdirTemp("", "race")
		if err == nil {
			raceDirs.Lock()
			raceDirs.all = append(raceDirs.all, dir)
			raceDirs.Unlock()
		}
		cmd.Env = append(os.Environ(), raceEnv(dir))
	}
	return cmd
}

func removeRaceDirs() {
	for _, d := range raceDirs.all {
		os.RemoveAll(d)
	}
}

// runWorker runs one batch in a process of its own.
func runWorker(race bool, from, to int, extra ...string) *workerRun {
	w := &workerRun{from: from, to: to, last: -1}
	args := append([]string{"-mode", "worker", "-prop", *fProp, "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-known", *fKnown}, extra...)
	cmd := command(race, args...)
	var errs tail
	cmd.Stderr = &errs
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		w.crashed, w.detail = true, err.Error()
		return w
	}
	if err := cmd.Start(); err != nil {
		w.crashed, w.detail = true, err.Error()
		return w
	}
	timer := time.AfterFunc(runTimeout, func() {
		w.hung = true
		cmd.Process.Kill()
	})
	rd := bufio.NewReaderSize(stdout, 1<<16)
	for {
		line, err := rd.ReadString('\n')
		if line != "" {
			timer.Reset(runTimeout)
			switch line[0] {
			case 'S':
				w.last, _ = strconv.Atoi(strings.TrimSpace(line[2:]))
			case 'V':
				var v foundViol
				if json.Unmarshal([]byte(line[2:]), &v) == nil {
					w.viols = append(w.viols, v)
				}
			case 'R':
				var st batchStats
				if json.Unmarshal([]byte(line[2:]), &st) == nil {
					w.stats = &st
				}
			}
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	timer.Stop()
	if w.stats == nil {
		w.crashed = true
		w.detail = crashDetail(string(errs.b))
		if w.hung {
			w.detail = fmt.Sprintf("no end within %v", runTimeout)
		}
	}
	return w
}

// server executes candidates in a process that may die.
type server struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *tail
	race bool
}

func (sv *server) start() error {
	sv.cmd = command(sv.race, "-mode", "serve", "-prop", *fProp)
	sv.errs = &tail{}
	sv.cmd.Stderr = sv.errs
	in, err := sv.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := sv.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	sv.in, sv.out = in, bufio.NewReaderSize(out, 1<<16)
	return sv.cmd.Start()
}

func (sv *server) stop() {
	if sv.cmd != nil {
		sv.in.Close()
		sv.cmd.Process.Kill()
		sv.cmd.Wait()
		sv.cmd = nil
	}
}

// try executes one candidate. A dead process is a violation of class "crash".
func (sv *server) try(c candidate, timeout time.Duration) outcome {
	if sv.cmd == nil {
		if err := sv.start(); err != nil {
			return outcome{}
		}
	}
	b, _ := json.Marshal(c)
	proc := sv.cmd.Process
	hung := false
	timer := time.AfterFunc(timeout, func() { hung = true; proc.Kill() })
	sv.in.Write(append(b, '\n'))
	line, err := sv.out.ReadBytes('\n')
	timer.Stop()
	var o outcome
	if err != nil || json.Unmarshal(line, &o) != nil {
		sv.cmd.Wait()
		d := crashDetail(string(sv.errs.b))
		if hung {
			d = fmt.Sprintf("no end within %v", timeout)
		}
		sv.cmd = nil
		return outcome{Viol: &simrt.Violation{Class: "crash", Msg: d}}
	}
	return o
}

func tryFresh(c candidate, race bool) outcome {
	sv := server{race: race}
	defer sv.stop()
	return sv.try(c, runTimeout)
}

type report struct {
	index   int
	viol    *simrt.Violation
	cand    candidate
	out     outcome
	replay  string
	sig     string
	attempt int
	race    bool
}

// confirm reproduces a violation in a fresh process: alone, or after the runs that preceded it in its batch.
func confirm(index, from int, race bool) *report {
	seed := runSeed(*fSeed, *fProp, index)
	c := candidate{Seed: seed}
	if o := tryFresh(c, race); o.Viol != nil {
		return &report{index: index, viol: o.Viol, cand: c, out: o, race: race}
	}
	if index > from {
		for _, n := range []int{1, 4, 16, batchSize} {
			if race && n == batchSize { // memory is used again in the course of so many runs
				break
			}
			lo := max(from, index-n)
			c := candidate{Seed: seed}
			for i := lo; i < index; i++ {
				c.Prefix = append(c.Prefix, runSeed(*fSeed, *fProp, i))
			}
			if o := tryFresh(c, race); o.Viol != nil {
				return &report{index: index, viol: o.Viol, cand: c, out: o, race: race}
			}
			if lo == from {
				break
			}
		}
	}
	return nil
}

type replayFile struct {
	Property  string              `json:"property"`
	Race      bool                `json:"race_detector,omitempty"`
	Violation *simrt.Violation    `json:"violation"`
	BaseSeed  uint64              `json:"base_seed"`
	Run       int                 `json:"run"`
	RunSeed   uint64              `json:"run_seed"`
	Prefix    []uint64            `json:"prefix_run_seeds,omitempty"`
	Choices   map[string][]uint64 `json:"choices"`
	Hash      string              `json:"hash"`
	Shrunk    string              `json:"shrunk"`
	Faults    map[string]int64    `json:"faults,omitempty"`
	Notes     []string            `json:"scenario,omitempty"`
	Trace     []string            `json:"trace"`
}

func total(c map[string][]uint64) (n int) {
	for _, s := range c {
		n += len(s)
	}
	return
}

func parseChoices(file string) map[string][]uint64 {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	c := map[string][]uint64{}
	for _, l := range strings.Split(string(b), "\n") {
		name, v, ok := strings.Cut(l, " ")
		if x, err := strconv.ParseUint(v, 10, 64); ok && err == nil {
			c[name] = append(c[name], x)
		}
	}
	return c
}

// shrink minimises the choices of a violation while its class stays the same.
func shrink(r *report, budget time.Duration) string {
	if len(r.cand.Prefix) > 0 {
		return "not minimised: depends on the runs before it"
	}
	if r.viol.Class == "crash" && strings.HasPrefix(r.viol.Msg, "no end") {
		return "not minimised: does not end"
	}
	deadline := time.Now().Add(budget)
	ks := loadKnown()
	sv := server{race: r.race}
	defer sv.stop()
	start := r.out.Choices
	if start == nil { // the process died: its choices were not returned
		c := r.cand
		f, err := os.CreateTemp("", "choices")
		if err == nil {
			f.Close()
			defer os.Remove(f.Name())
			c.Record = f.Name()
			sv.try(c, runTimeout)
			start = parseChoices(f.Name())
		}
		if start == nil {
			return "not minimised: the process dies; replay by seed"
		}
	}
	best := start
	before := total(best)
	tries := 0
	class := r.viol.Class
	check := func(c map[string][]uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		o := sv.try(candidate{Choices: c}, 30*time.Second)
		if o.Viol != nil && o.Viol.Class == class && findKnown(ks, class, o.Viol.Msg) == nil {
			if o.Choices != nil && total(o.Choices) <= total(c) {
				best = o.Choices
			} else {
				best = c
			}
			return true
		}
		return false
	}
	if !check(best) {
		return "not minimised: not reproduced from recorded choices"
	}
	names := func() []string {
		var ns []string
		for n := range best {
			ns = append(ns, n)
		}
		sort.Slice(ns, func(i, j int) bool {
			if len(best[ns[i]]) != len(best[ns[j]]) {
				return len(best[ns[i]]) > len(best[ns[j]])
			}
			return ns[i] < ns[j]
		})
		return ns
	}
	with := func(n string, v []uint64) map[string][]uint64 {
		c := map[string][]uint64{}
		for k, s := range best {
			c[k] = s
		}
		c[n] = v
		if len(v) == 0 {
			delete(c, n)
		}
		return c
	}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		for _, n := range names() { // whole streams
			if len(best[n]) > 0 && check(with(n, nil)) {
				progress = true
			}
		}
		for _, n := range names() {
			for size := len(best[n]); size >= 1; size /= 2 {
				for lo := 0; lo < len(best[n]); lo += size {
					if time.Now().After(deadline) {
						break
					}
					v := best[n]
					hi := min(len(v), lo+size)
					// Delete, then zero.
					if check(with(n, append(append([]uint64(nil), v[:lo]...), v[hi:]...))) {
						progress = true
						lo -= size
						continue
					}
					z := append([]uint64(nil), v...)
					nz := false
					for i := lo; i < hi; i++ {
						nz = nz || z[i] != 0
						z[i] = 0
					}
					if nz && check(with(n, z)) {
						progress = true
					}
				}
			}
			for i := 0; i < len(best[n]); i++ { // reduce values
				for _, div := range []uint64{4, 2} {
					v := best[n]
					if i < len(v) && v[i] > 1 {
						z := append([]uint64(nil), v...)
						z[i] /= div
						if check(with(n, z)) {
							progress = true
						}
					}
				}
				if v := best[n]; i < len(v) && v[i] > 0 {
					z := append([]uint64(nil), v...)
					z[i]--
					if check(with(n, z)) {
						progress = true
					}
				}
			}
		}
	}
	c := candidate{Choices: best, Trace: true}
	o := tryFresh(c, r.race)
	if o.Viol == nil || o.Viol.Class != class {
		return "not minimised: the smaller history does not reproduce in a fresh process"
	}
	r.cand, r.out, r.viol = c, o, o.Viol
	return fmt.Sprintf("from %d to %d recorded choices in %d executions", before, total(best), tries)
}

func writeReplay(r *report, shrunk string) error {
	if *fReplays == "" {
		return nil
	}
	if err := os.MkdirAll(*fReplays, 0o755); err != nil {
		return err
	}
	c := r.cand
	c.Trace = true
	o := tryFresh(c, r.race)
	rf := replayFile{
		Property: *fProp, Race: r.race, Violation: r.viol, BaseSeed: *fSeed, Run: r.index, RunSeed: runSeed(*fSeed, *fProp, r.index),
		Prefix: c.Prefix, Choices: c.Choices, Hash: fmt.Sprintf("%016x", o.Hash), Shrunk: shrunk, Faults: o.Counts, Notes: o.Notes, Trace: o.Lines,
	}
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return err
	}
	r.replay = filepath.Join(*fReplays, fmt.Sprintf("%s-%x.json", *fProp, rf.RunSeed))
	return os.WriteFile(r.replay, b, 0o644)
}

func replayMode() int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if scenarios[rf.Property] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		return 2
	}
	*fProp = rf.Property
	if rf.Race && *fRace == "" {
		fmt.Fprintln(os.Stderr, "this replay needs the race detector (-race FILE)")
		return 2
	}
	defer removeRaceDirs()
	o := tryFresh(candidate{Prefix: rf.Prefix, Seed: rf.RunSeed, Choices: rf.Choices, Trace: true}, rf.Race)
	for _, l := range o.Lines {
		fmt.Println(l)
	}
	if o.Viol == nil {
		fmt.Printf("no violation; hash %016x, recorded %s\n", o.Hash, rf.Hash)
		return 0
	}
	fmt.Println(o.Viol)
	fmt.Printf("hash %016x, recorded %s; same violation: %v\n", o.Hash, rf.Hash, o.Viol.Class == rf.Violation.Class && o.Viol.Msg == rf.Violation.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *fReplay)
	return 1
}

// known findings: lines "finding: property=<id> class=<class> match=<text in the message>".
type known struct {
	class, match, line string
	seen               int
}

func findKnown(ks []*known, class, msg string) *known {
	for _, k := range ks {
		if k.class == class && strings.Contains(msg, k.match) {
			return k
		}
	}
	return nil
}

func loadKnown() (ks []*known) {
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "finding: property="+*fProp+" ")
		if !ok {
			continue
		}
		rest, match, ok := strings.Cut(rest, "match=")
		if !ok || match == "" {
			continue
		}
		class := strings.TrimPrefix(strings.TrimSpace(rest), "class=")
		ks = append(ks, &known{class: class, match: match, line: l})
	}
	return ks
}

// raceBase is the index of the first run under the race detector.
const raceBase = 1_000_000_000

func check() int {
	t0 := time.Now()
	defer removeRaceDirs()
	sc := scenarios[*fProp]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		return 2
	}
	runs := *fRuns
	if runs == 0 {
		runs = sc.quick
		if *fTier == "thorough" {
			runs = sc.thorough
		}
	}
	procs := min(8, max(1, runtime.NumCPU()))
	bsize := min(batchSize, max(1, (runs+procs*4-1)/(procs*4)))
	if *fTier == "thorough" {
		bsize = batchSize
	}
	agg := batchStats{Counts: map[string]int64{}}
	hashes, inters := map[uint64]bool{}, map[uint64]bool{}
	type crash struct {
		index, from int
		detail      string
	}
	var (
		mu      sync.Mutex
		viols   []foundViol
		froms   = map[int]int{}
		crashes []crash
		stop    bool
		wg      sync.WaitGroup
		notes   []string
		samples []string
		nknown  int
	)
	ks := loadKnown()
	batches := map[int]uint64{} // first run -> hash of the batch
	search := func(race bool, next, runs, bsize int, agg *batchStats) {
		for range procs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					if stop || next >= runs || *fBudget > 0 && time.Since(t0) > time.Duration(*fBudget)*time.Second {
						mu.Unlock()
						return
					}
					from := next
					to := min(runs, from+bsize)
					next = to
					mu.Unlock()
					for from < to {
						w := runWorker(race, from, to)
						mu.Lock()
						for _, v := range w.viols {
							if k := findKnown(ks, v.Viol.Class, v.Viol.Msg); k != nil {
								if k.seen++; k.seen > 2 { // two of each known finding are confirmed
									continue
								}
								nknown++
							}
							viols = append(viols, v)
							froms[v.Index] = from
						}
						if len(viols)-nknown >= 40 || len(crashes) >= 12 {
							stop = true
						}
						if w.crashed {
							crashes = append(crashes, crash{w.last, from, w.detail})
							mu.Unlock()
							if w.last < from {
								break
							}
							from = w.last + 1 // the batch goes on after the run that killed it
							if stop {
								break
							}
							continue
						}
						st := w.stats
						agg.Runs += st.Runs
						agg.Nontrivial += st.Nontrivial
						agg.Steps += st.Steps
						agg.Slices += st.Slices
						agg.Switches += st.Switches
						agg.SimNanos += st.SimNanos
						for k, v := range st.Counts {
							agg.Counts[k] += v
						}
						for _, h := range st.Hashes {
							hashes[h] = true
						}
						for _, h := range st.Inters {
							inters[h] = true
						}
						if len(samples) < 6 {
							samples = append(samples, st.Notes...)
						}
						if !race {
							batches[from] = st.AllHash
						}
						mu.Unlock()
						break
					}
				}
			}()
		}
		wg.Wait()
	}
	search(false, 0, runs, bsize, &agg)
	searchWall := time.Since(t0)
	raceAgg := batchStats{Counts: map[string]int64{}}
	raceRuns := sc.race[b2i(*fTier == "thorough")]
	if *fRuns > 0 {
		raceRuns = min(raceRuns, *fRuns)
	}
	raceWall := time.Now()
	switch {
	case raceRuns == 0 || len(viols) > nknown || len(crashes) > 0:
	case *fRace == "":
		notes = append(notes, "the harness could not be built with the race detector")
	default:
		search(true, raceBase, raceBase+raceRuns, max(1, min(batchSize, raceRuns/(procs*4))), &raceAgg)
	}
	raceTime := time.Since(raceWall)

	// Violations, by signature, in the order of their runs.
	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	sort.Slice(crashes, func(i, j int) bool { return crashes[i].index < crashes[j].index })
	var reports []*report
	seen := map[string]int{}
	knownHit := map[string]bool{}
	trouble := ""
	handle := func(index, from int, sig, why string) {
		if seen[sig] >= 3 || len(reports) >= 4 {
			return
		}
		seen[sig]++
		r := confirm(index, from, index >= raceBase)
		if r == nil {
			notes = append(notes, fmt.Sprintf("run %d (seed %#x) reported %s but a fresh process does not reproduce it: artefact of state kept between runs, ignored: %s", index, runSeed(*fSeed, *fProp, index), sig, clip(why, 300)))
			return
		}
		if r.viol.Class == "harness-panic" {
			trouble = r.viol.Msg
			return
		}
		if k := findKnown(ks, r.viol.Class, r.viol.Msg); k != nil {
			knownHit[k.line] = true
			return
		}
		seen[sig] = 3
		r.sig = sig
		reports = append(reports, r)
	}
	for _, v := range viols {
		sig := signature(&v.Viol)
		if k := findKnown(ks, v.Viol.Class, v.Viol.Msg); k != nil {
			sig = k.line
		}
		handle(v.Index, froms[v.Index], sig, v.Viol.Msg)
	}
	for _, c := range crashes {
		if c.index < 0 {
			trouble = "a worker did not start: " + c.detail
			continue
		}
		handle(c.index, c.from, "crash "+strings.SplitN(c.detail, " in ", 2)[0], c.detail)
	}

	// Determinism: the same batch in another process must give the same hash.
	repeats, same := 0, 0
	if len(viols) == nknown && len(crashes) == 0 && trouble == "" {
		var keys []int
		for k := range batches {
			keys = append(keys, k)
		}
		sort.Ints(keys)
		if len(keys) > 0 {
			k := keys[len(keys)/2]
			n := min(runs, k+bsize)
			w := runWorker(false, k, n)
			repeats = n - k
			if w.stats != nil && w.stats.AllHash == batches[k] {
				same = repeats
			} else {
				notes = append(notes, "repeating a batch of runs gave another hash: some nondeterminism is not under control")
			}
		}
	}

	code := 0
	for i, r := range reports {
		budget := time.Duration(*fShrink) * time.Second
		if i > 0 {
			budget /= 4
		}
		sh := shrink(r, budget)
		if err := writeReplay(r, sh); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Printf("%s\n  run %d, seed %#x; %s\n", r.viol, r.index, runSeed(*fSeed, *fProp, r.index), sh)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, r.replay)
		code = 1
	}
	for _, k := range ks {
		if knownHit[k.line] {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *fProp, k.class, k.match)
		}
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, "HARNESS TROUBLE:", trouble)
		if code == 0 {
			code = 2
		}
	}
	extra := map[string]any{}
	if raceAgg.Runs > 0 {
		extra["race_detector"] = map[string]any{"runs": raceAgg.Runs, "nontrivial_runs": raceAgg.Nontrivial, "steps": raceAgg.Steps,
			"task_switches": raceAgg.Switches, "wall_s": raceTime.Seconds(), "faults_injected": faultList(raceAgg.Counts)}
	}
	writeEvidence(sc, &agg, extra, hashes, inters, samples, notes, reports, searchWall, time.Since(t0), repeats, same, knownHit)
	if raceAgg.Runs > 0 {
		fmt.Printf("%s %s: %d more runs under the race detector, %.1fs\n", *fProp, *fTier, raceAgg.Runs, raceTime.Seconds())
	}
	fmt.Printf("%s %s: %d runs, %d non-trivial, %d distinct, %d distinct interleavings, %.3g steps, %v simulated, %.1fs\n", *fProp, *fTier, agg.Runs,
		agg.Nontrivial, len(hashes), len(inters), float64(agg.Steps), time.Duration(agg.SimNanos).Round(time.Second), time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	return code
}

func writeEvidence(sc *scenario, agg *batchStats, extra map[string]any, hashes, inters map[uint64]bool, samples, notes []string, reports []*report, search, wall time.Duration, repeats, same int, knownHit map[string]bool) {
	if *fEvidence == "" {
		return
	}
	faults, probes, policies := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range agg.Counts {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "net."):
			faults[k] = v
		case strings.HasPrefix(k, "policy."):
			policies[k[7:]] = v
		default:
			probes[k] = v
		}
	}
	hours := search.Hours()
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	cov := map[string]any{
		"evaluations":            agg.Runs,
		"distinct_nontrivial":    len(hashes),
		"rule":                   sc.rule,
		"samples":                samples,
		"seeds_per_hour":         int64(float64(agg.Runs) / hours),
		"nontrivial_runs":        agg.Nontrivial,
		"distinct_interleavings": len(inters),
		"interleaving_measure":   "hash over (task, preemption site) of every scheduling slice and (kind, position) of every injected fault",
		"distinctness_measure":   "hash over the schedule, the faults and the observed events of the run",
		"simulated_time_s":       time.Duration(agg.SimNanos).Seconds(),
		"steps":                  agg.Steps,
		"scheduling_slices":      agg.Slices,
		"task_switches":          agg.Switches,
		"faults_injected":        faults,
		"probes":                 probes,
		"scheduling_policies":    policies,
		"components_real":        sc.real,
		"components_simulated":   sc.stub,
		"instrumentation_level":  simrt.InstrLevel,
		"instrumented_sites":     len(simrt.Sites),
		"determinism_repeats":    repeats,
		"determinism_repeats_ok": same,
		"worker_processes":       min(8, runtime.NumCPU()),
	}
	for k, v := range extra {
		cov[k] = v
	}
	if *fNote != "" {
		notes = append(notes, *fNote)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	var vs []any
	for _, r := range reports {
		vs = append(vs, map[string]any{"class": r.viol.Class, "message": r.viol.Msg, "replay": r.replay, "run": r.index, "seed": runSeed(*fSeed, *fProp, r.index)})
	}
	ev := map[string]any{
		"property": sc.id, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": cov,
		"wall_s":      wall.Seconds(),
		"assumptions": []string{"Go memory is sequentially consistent between preemption points (before every statement); where race_detector is reported, unordered accesses are found as such", "no panic or error inside the Go standard library is injected except through the simulated io.Reader/io.Writer and protocol implementations"},
	}
	ev["violations"] = len(reports)
	if len(vs) > 0 {
		cov["violation_list"] = vs
	}
	if len(knownHit) > 0 {
		var l []string
		for k := range knownHit {
			l = append(l, k)
		}
		sort.Strings(l)
		cov["known_findings_seen"] = l
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
	os.WriteFile(*fEvidence, append(b, '\n'), 0o644)
}
