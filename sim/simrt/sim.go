//go:build go1.25

package simrt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Set by the generated file.
var (
	Sites      []string
	InstrLevel int
)

// cur is the simulation in progress. There is at most one per process, and at any moment at most one of
// its goroutines runs; hand-over happens through channels.
var cur *Sim

// Gen counts simulations: state that a real process would lose when it exits (see simsync) belongs to
// one generation. KeepState turns that off.
var (
	Gen       uint64
	KeepState bool
)

// Restart makes the process forget the state tied to the generation, as a restart would.
func Restart() {
	if !KeepState {
		Gen++
		for _, f := range resets {
			f()
		}
	}
}

var resets []func()

// OnRestart registers the reinitialisation of package-level variables of the code under test.
func OnRestart(f func()) { resets = append(resets, f) }

const noLimit = 1 << 60

type state uint8

const (
	ready state = iota
	blocked
	done
)

type Task struct {
	ID     int
	Name   string
	Daemon bool // may still be blocked when the run ends

	s       *Sim
	wake    chan struct{}
	fn      func()
	st      state
	why     string
	budget  int64
	op      int64
	opLimit int64
	prio    int
	killed  bool
	site    int
	counts  []string
}

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

func (v *Violation) String() string { return v.Class + ": " + v.Msg }

type event struct {
	at  time.Duration
	seq uint64
	fn  func()
}

type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Scheduling policies.
const (
	RunToBlock = iota
	SmallQuanta
	LargeQuanta
	PCT
)

type Sim struct {
	Src   *Source
	Sched *Stream

	now    time.Duration
	steps  int64
	slices int64
	cap    int64
	events eventHeap
	seq    uint64

	tasks []*Task
	task  *Task
	last  *Task
	back  chan struct{}

	policy  int
	changes []int64 // PCT change points, ascending
	lowest  int

	viol     *Violation
	hash     uint64
	inter    uint64 // hash of the interleaving and the faults alone
	Counts   map[string]int64
	Notes    []string // free-form description of the run, for samples
	Switches int64

	BufSize int // buffer size of the protocols' readers and writers; 0: the default

	Trace  bool
	Lines  []string
	nLines int

	ended byte // for the race detector: what ended tasks did happened before what comes after Run
}

func New(src *Source) *Sim {
	return &Sim{
		Src:    src,
		Sched:  src.Stream("sched"),
		cap:    400_000_000,
		back:   make(chan struct{}),
		hash:   14695981039346656037,
		inter:  14695981039346656037,
		Counts: map[string]int64{},
	}
}

// Exec runs one simulation: body sets up tasks and calls Run.
func Exec(s *Sim, body func()) {
	if cur != nil {
		panic("simrt: nested simulation")
	}
	Restart()
	cur = s
	defer func() { cur = nil }()
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					return
				}
				st := string(debug.Stack())
				if underTest(st) {
					s.violate("panic", fmt.Sprintf("%v in a call made before or after the tasks\n%s", r, trimStack(st)))
				} else {
					s.violate("harness-panic", fmt.Sprintf("%v\n%s", r, st))
				}
			}
		}()
		body()
	}()
	<-fin
	s.kill()
}

type stop struct{}

func (s *Sim) Violation() *Violation { return s.viol }
func (s *Sim) Hash() uint64          { return s.hash }
func (s *Sim) Interleaving() uint64  { return s.inter }
func (s *Sim) Steps() int64          { return s.steps }
func (s *Sim) Slices() int64         { return s.slices }
func (s *Sim) Now() time.Duration    { return s.now }
func (s *Sim) SetCap(n int64)        { s.cap = n }
func (s *Sim) Self() *Task           { return s.task }

// Cur returns the simulation in progress if the caller runs as one of its tasks.
func Cur() *Sim {
	if cur != nil && cur.task != nil {
		return cur
	}
	return nil
}

// Current returns the simulation in progress.
func Current() *Sim { return cur }

func (s *Sim) violate(class, msg string) {
	if s.viol == nil {
		s.viol = &Violation{class, msg}
		s.Logf("VIOLATION %s: %s", class, msg)
	}
}

// Fail records a violation and ends the run.
func (s *Sim) Fail(class, format string, args ...any) {
	s.violate(class, fmt.Sprintf(format, args...))
	if s.task != nil {
		s.task.killed = true
		runtime.Goexit()
	}
	panic(stop{})
}

// Count counts a fault or probe.
func (s *Sim) Count(name string) {
	if Racing && s.task != nil { // the race detector sees accesses to maps, wherever they come from
		s.task.counts = append(s.task.counts, name)
		return
	}
	s.Counts[name]++
}

// Fault counts an injected fault and makes it part of the run's identity.
func (s *Sim) Fault(name string, at int) {
	s.Count("fault." + name)
	s.inter = hmix(hmixs(s.inter, name), uint64(at))
	s.hash = hmix(hmixs(s.hash, name), uint64(at))
	s.Logf("fault %s at %d", name, at)
}

func hmix(h, x uint64) uint64 {
	for i := 0; i < 8; i++ {
		h = (h ^ (x & 255)) * 1099511628211
		x >>= 8
	}
	return h
}

func hmixs(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Event mixes something observable into the run's hash.
func (s *Sim) Event(name string, x uint64) { s.hash = hmix(hmixs(s.hash, name), x) }

// EventStr mixes a string into the run's hash.
func (s *Sim) EventStr(name, x string) { s.hash = hmixs(hmixs(s.hash, name), x) }

// Shape mixes something into the run's interleaving identity.
func (s *Sim) Shape(name string, x uint64) { s.inter = hmix(hmixs(s.inter, name), x) }

// Logf adds a line to the human-readable trace of a replay. It never draws a choice.
func (s *Sim) Logf(format string, args ...any) {
	if !s.Trace {
		return
	}
	s.nLines++
	if len(s.Lines) < 4000 {
		who := "-"
		if s.task != nil {
			who = s.task.Name
		}
		s.Lines = append(s.Lines, fmt.Sprintf("t=%v step=%d %s: %s", s.now, s.steps, who, fmt.Sprintf(format, args...)))
	}
}

// Go starts a task.
func (s *Sim) Go(name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, s: s, fn: fn, wake: make(chan struct{}), op: noLimit, opLimit: noLimit}
	s.tasks = append(s.tasks, t)
	if s.policy == PCT {
		t.prio = 1000 + s.Sched.N(1000)
	}
	go t.main()
	return t
}

func (t *Task) main() {
	s := t.s
	raceOff()
	<-t.wake
	raceOn()
	defer func() {
		if r := recover(); r != nil {
			s.violate("panic", fmt.Sprintf("%v in task %s\n%s", r, t.Name, trimStack(string(debug.Stack()))))
		}
		t.st = done
		Release(&s.ended)
		raceOff()
		s.back <- struct{}{}
	}()
	if t.killed {
		return
	}
	t.fn()
}

// underTest reports whether the code under test is among the callers of a panic.
func underTest(st string) bool {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, module) && !strings.HasPrefix(l, module+"zzverifsim/") {
			return true
		}
	}
	return false
}

const module = "github.com/itstarsun/go-thrift/"

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, " +0x"); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/zzverifsim/simrt") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/sim/simrt/") {
			out = append(out, l)
			if len(out) >= 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// Policy draws the scheduling policy of the run. expect is a guess at the number of steps.
func (s *Sim) Policy(expect int) {
	s.policy = s.Sched.Pick(2, 3, 3, 2)
	s.Counts[[]string{"policy.run-to-block", "policy.small-quanta", "policy.large-quanta", "policy.pct"}[s.policy]]++
	if s.policy == PCT {
		for range s.Sched.Range(1, 4) {
			s.changes = append(s.changes, int64(s.Sched.N(expect+1)))
		}
		sort.Slice(s.changes, func(i, j int) bool { return s.changes[i] < s.changes[j] })
		s.lowest = 999
	}
}

const maxQuantum = 1_000_000

func (s *Sim) pick(run []*Task) (*Task, int64) {
	switch s.policy {
	case PCT:
		best := run[0]
		for _, t := range run[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		for len(s.changes) > 0 && s.changes[0] <= s.steps {
			s.changes = s.changes[1:]
			best.prio = s.lowest
			s.lowest--
			best = run[0]
			for _, t := range run[1:] {
				if t.prio > best.prio {
					best = t
				}
			}
		}
		if len(s.changes) > 0 {
			return best, min(maxQuantum, s.changes[0]-s.steps+1)
		}
		return best, maxQuantum
	}
	// Order the candidates so that choice 0 continues the last task.
	i := 0
	if len(run) > 1 {
		i = s.Sched.N(len(run))
		for j, t := range run {
			if t == s.last {
				run[0], run[j] = run[j], run[0]
				sort.Slice(run[1:], func(a, b int) bool { return run[1+a].ID < run[1+b].ID })
				break
			}
		}
	}
	t := run[i]
	if len(s.tasks) == 1 {
		return t, maxQuantum
	}
	switch s.policy {
	case SmallQuanta:
		if q := s.Sched.N(16); q > 0 {
			return t, int64(q)
		}
	case LargeQuanta:
		if q := s.Sched.N(1 << uint(1+s.Sched.N(10))); q > 0 {
			return t, int64(q)
		}
	}
	return t, maxQuantum
}

// Run schedules tasks and events until nothing is left to do. Tasks blocked for ever are a violation.
func (s *Sim) Run() {
	var run []*Task
	for s.viol == nil {
		for len(s.events) > 0 && s.events[0].at <= s.now {
			e := heap.Pop(&s.events).(event)
			e.fn()
		}
		run = run[:0]
		for _, t := range s.tasks {
			if t.st == ready {
				run = append(run, t)
			}
		}
		if len(run) == 0 {
			if len(s.events) == 0 {
				break
			}
			s.now = s.events[0].at
			continue
		}
		t, q := s.pick(run)
		if t != s.last {
			s.Switches++
			if s.Trace {
				s.Logf("schedule %s for up to %d steps", t.Name, q)
			}
		}
		s.resume(t, q)
		s.inter = hmix(s.inter, uint64(t.ID)<<32|uint64(uint32(t.site)))
		s.hash = hmix(s.hash, uint64(t.ID)<<48^uint64(s.steps))
		if s.steps > s.cap {
			s.violate("no-termination", fmt.Sprintf("no end after %d steps; last at %s", s.steps, siteName(t.site)))
		}
	}
	if s.viol == nil {
		var stuck []string
		for _, t := range s.tasks {
			if t.st == blocked && !t.Daemon {
				stuck = append(stuck, t.Name+" waiting for "+t.why)
			}
		}
		if len(stuck) > 0 {
			s.violate("stuck", "nothing can ever run again: "+strings.Join(stuck, "; "))
		}
	}
	Acquire(&s.ended)
	if s.viol != nil {
		panic(stop{})
	}
}

func (s *Sim) resume(t *Task, q int64) {
	t.budget = q
	s.task = t
	s.last = t
	before := s.steps
	s.slices++
	raceOff()
	t.wake <- struct{}{}
	<-s.back
	raceOn()
	s.task = nil
	s.now += time.Duration(s.steps-before)*10 + 1
}

// kill unwinds every unfinished task.
func (s *Sim) kill() {
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		for t.st != done {
			t.killed = true
			t.st = ready
			s.resume(t, maxQuantum)
		}
		for _, n := range t.counts {
			s.Counts[n]++
		}
	}
	Acquire(&s.ended)
}

func (t *Task) yield() {
	raceOff()
	t.s.back <- struct{}{}
	<-t.wake
	raceOn()
	if t.killed {
		runtime.Goexit()
	}
}

// Park blocks the current task until Ready.
func (s *Sim) Park(why string) {
	t := s.task
	if t.killed {
		runtime.Goexit()
	}
	t.st = blocked
	t.why = why
	if s.Trace {
		s.Logf("blocks on %s", why)
	}
	t.yield()
}

// Ready makes a parked task runnable.
func (s *Sim) Ready(t *Task) {
	if t.st == blocked {
		t.st = ready
	}
}

// Sleep lets simulated time pass.
func (s *Sim) Sleep(d time.Duration) {
	t := s.task
	s.After(d, func() { s.Ready(t) })
	s.Park("sleep")
}

// After schedules an event.
func (s *Sim) After(d time.Duration, fn func()) {
	s.seq++
	heap.Push(&s.events, event{s.now + d, s.seq, fn})
}

// A Cond is a list of waiting tasks.
type Cond struct{ w []*Task }

func (c *Cond) Wait(s *Sim, why string) {
	c.w = append(c.w, s.task)
	s.Park(why)
}

func (c *Cond) Broadcast(s *Sim) {
	for _, t := range c.w {
		s.Ready(t)
	}
	c.w = c.w[:0]
}

// Limit bounds the steps the current task may take until Unlimit; it returns the steps left when it was
// last set.
func (s *Sim) Limit(n int64) { s.task.op, s.task.opLimit = n, n }

// Unlimit ends Limit and returns the number of steps taken.
func (s *Sim) Unlimit() int64 {
	t := s.task
	used := t.opLimit - t.op
	t.op, t.opLimit = noLimit, noLimit
	return used
}

func siteName(i int) string {
	if i >= 0 && i < len(Sites) {
		return Sites[i]
	}
	return fmt.Sprintf("site %d", i)
}

// Y is called before every statement of the code under test.
func Y(site int) {
	s := cur
	if s == nil {
		return
	}
	t := s.task
	if t == nil || t.killed {
		return
	}
	s.steps++
	t.op--
	t.budget--
	if t.op < 0 || t.budget <= 0 {
		t.site = site
		s.slow(t, site)
	}
}

func (s *Sim) slow(t *Task, site int) {
	if t.op < 0 {
		limit := t.opLimit
		t.op, t.opLimit = noLimit, noLimit
		s.Fail("work", "more than %d steps in one operation; last at %s", limit, siteName(site))
	}
	if s.Trace && len(s.tasks) > 1 {
		s.Logf("preempted before %s", siteName(site))
	}
	t.yield()
}

// YV is a preemption point inside an expression, between the evaluation of v and its use. It is no step
// of an operation: bounds on work do not depend on how statements are split into expressions.
func YV[T any](site int, v T) T {
	yv(site)
	return v
}

func yv(site int) {
	s := cur
	if s == nil {
		return
	}
	t := s.task
	if t == nil || t.killed {
		return
	}
	s.steps++
	if t.budget--; t.budget <= 0 {
		t.site = site
		s.slow(t, site)
	}
}

// Yield is a preemption point in harness and simsync code.
func Yield() { Y(-1) }
