//go:build go1.25

package main

import (
	"errors"
	"fmt"
	"slices"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/thriftmemo"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C15", run: runC15, quick: 300000, thorough: 9000000, real: []string{"internal/thriftmemo", "thrift", "encoding/thriftwire (Skip)"},
		stub: []string{"scheduler", "sync primitives", "map iteration order"},
		rule: "A run is 1 to 3 tasks that each record 1 to 4 messages or values with one Memo again and again: completely and read back, with a breakpoint at a seeded step of the writing or the reading, sometimes at every step in turn, or abandoned half-way, with a Reset in between; non-trivial if a breakpoint was hit.",
	})
}

// stringsOnly records binaries as strings, which is how readW reads them.
type stringsOnly struct{ thriftwire.Writer }

func (x stringsOnly) WriteBytes(b []byte) error { return x.Writer.WriteString(string(b)) }

func sendMemo(x thriftwire.Writer, m *message) error {
	if m.typ == nil {
		x = stringsOnly{x}
	}
	return send(x, m)
}

func runC15(s *simrt.Sim) {
	g := newGen(s)
	g.tiny()
	knobs := s.Src.Stream("knobs")
	fs := s.Src.Stream("fault")
	ordered := knobs.N(2) == 0
	if ordered {
		g.noMaps()
	}
	n := 1 + knobs.Pick(4, 2, 1)
	for i := range n {
		var msgs []*message
		for range 1 + knobs.Pick(4, 3, 2, 1) {
			m := g.message()
			if m.typ != nil {
				m.how = howDecode
			}
			msgs = append(msgs, m)
		}
		t := &memoTask{s: s, g: g, fs: fs, name: fmt.Sprintf("t%d", i), msgs: msgs, ordered: ordered}
		rounds := 2 + knobs.N(6)
		sweep := knobs.N(16) == 15
		note(s, "%s: %v, %d rounds", t.name, msgs, rounds)
		s.Go(t.name, func() {
			t.plan()
			for r := range rounds {
				t.round(r)
			}
			if sweep && t.total() <= 120 {
				t.sweep()
			}
		})
	}
	s.Policy(1500 * n)
	s.Run()
}

type memoTask struct {
	s       *simrt.Sim
	g       *gen
	fs      *simrt.Stream
	name    string
	msgs    []*message
	ordered bool

	m     thriftmemo.Memo
	cum   []int // steps up to and with each message
	steps []string
	kept  []string // a former result of Steps, and a copy
	kept2 []string
}

func (t *memoTask) fail(class, format string, args ...any) {
	t.s.Fail(class, "%s: %v: %s", t.name, t.msgs, fmt.Sprintf(format, args...))
}

// plan computes the number of steps from the model.
func (t *memoTask) plan() {
	n := 0
	for _, m := range t.msgs {
		n += len(tokens(m.w, nil))
		if !m.bare {
			n += 2
		}
		t.cum = append(t.cum, n)
	}
}

func (t *memoTask) total() int { return t.cum[len(t.cum)-1] }

// check compares the tracked steps with the first n of all.
func (t *memoTask) check(n int, what string) {
	got := t.m.Steps()
	if len(got) != n {
		t.fail("steps", "%s: %d steps are tracked, want %d", what, len(got), n)
	}
	if !slices.Equal(t.kept, t.kept2) {
		t.fail("steps", "%s: an earlier result of Steps changed", what)
	}
	if t.ordered && t.steps != nil {
		for i := range got {
			w := ""
			switch {
			case i < len(t.steps):
				w = t.steps[i]
			case i < 2*t.total():
				w = t.steps[i-t.total()]
			}
			if got[i] != w {
				t.fail("steps", "%s: step %d is %s, want %s", what, i+1, got[i], w)
			}
		}
	}
	t.kept, t.kept2 = got, slices.Clone(got)
}

// write writes messages until one fails; at most upto messages.
func (t *memoTask) write(upto int, what string) (int, error) {
	for i, m := range t.msgs[:upto] {
		if err := sendMemo(t.m.Writer(), m); err != nil {
			return i, err
		}
	}
	return upto, nil
}

func (t *memoTask) read(upto int, what string) (int, error) {
	for i, m := range t.msgs[:upto] {
		r := recv(t.m.Reader(), m)
		if r.err != nil {
			return i, r.err
		}
		if d := m.same(r); d != "" {
			t.fail("replay", "%s: message %d: %s", what, i, d)
		}
	}
	return upto, nil
}

// broken checks where a breakpoint at n took effect.
func (t *memoTask) broken(n, done int, err error, what string) {
	if n > t.total() {
		if err != nil {
			t.fail("broke-early", "%s: error %v although there are only %d steps", what, err, t.total())
		}
		return
	}
	t.s.Fault("breakpoint", n)
	if err == nil {
		t.fail("not-broken", "%s: no error", what)
	}
	if !errors.Is(err, thriftmemo.ErrBreak) {
		t.fail("cause", "%s: error %v", what, err)
	}
	for i, c := range t.cum {
		if c >= n {
			if done != i {
				t.fail("wrong-step", "%s: %d messages succeeded, want %d", what, done, i)
			}
			break
		}
	}
}

func (t *memoTask) point() int {
	n := t.total()
	switch t.fs.Pick(6, 2, 2, 1) {
	case 0:
		return 1 + t.fs.N(n)
	case 1:
		return 1 + t.fs.N(min(n, 4))
	case 2:
		return n - t.fs.N(min(n, 4))
	}
	return n + 1 + t.fs.N(3)
}

func (t *memoTask) round(r int) {
	t.m.Reset()
	if t.m.Breakpoint != 0 {
		t.fail("reset", "round %d: the breakpoint survived Reset", r)
	}
	t.check(0, fmt.Sprintf("round %d after Reset", r))
	what := fmt.Sprintf("round %d", r)
	kind := t.fs.Pick(2, 3, 3, 1)
	switch kind {
	case 0, 2: // complete, and maybe a breakpoint at reading
		if t.fs.N(3) == 2 {
			t.m.Breakpoint = -t.fs.N(2)
		}
		if done, err := t.write(len(t.msgs), what); err != nil {
			t.fail("write", "%s: writing message %d: %v", what, done, err)
		}
		t.check(t.total(), what+" after writing")
		if t.steps == nil {
			t.steps = t.m.Steps()
		}
		for i := range t.kept { // a copy
			t.kept[i] = "?"
		}
		t.kept2 = slices.Clone(t.kept)
		if kind == 0 {
			if done, err := t.read(len(t.msgs), what); err != nil {
				t.fail("read", "%s: reading message %d: %v", what, done, err)
			}
			t.check(2*t.total(), what+" after reading")
			return
		}
		t.breakReading(t.point(), what)
	case 1:
		t.breakWriting(t.point(), what)
	case 3: // abandoned
		n := t.fs.N(len(t.msgs) + 1)
		t.write(n, what)
		t.read(t.fs.N(n+1), what)
		t.m.Breakpoint = t.fs.N(5)
	}
}

func (t *memoTask) breakReading(n int, what string) {
	what = fmt.Sprintf("%s, breakpoint %d at reading", what, n)
	t.m.Breakpoint = n
	done, err := t.read(len(t.msgs), what)
	t.broken(n, done, err, what)
	want := t.total() + min(n-1, t.total())
	t.check(want, what)
	if n > t.total() {
		return
	}
	for range t.fs.N(4) {
		c := genReadCall(t.g, t.fs)
		if _, err := c.read(t.m.Reader()); !errors.Is(err, thriftmemo.ErrBreak) {
			t.fail("not-broken", "%s: %v after it returned %v", what, c, err)
		}
	}
	t.check(want, what+", after more calls")
}

func (t *memoTask) breakWriting(n int, what string) {
	what = fmt.Sprintf("%s, breakpoint %d at writing", what, n)
	t.m.Breakpoint = n
	done, err := t.write(len(t.msgs), what)
	t.broken(n, done, err, what)
	want := min(n-1, t.total())
	t.check(want, what)
	if n > t.total() {
		return
	}
	for range t.fs.N(4) {
		c := genWriteCall(t.g, t.fs)
		if err := c.write(t.m.Writer()); !errors.Is(err, thriftmemo.ErrBreak) {
			t.fail("not-broken", "%s: %v after it returned %v", what, c, err)
		}
	}
	t.check(want, what+", after more calls")
	if t.fs.N(3) != 0 {
		return
	}
	// the reading side counts its own steps: what was recorded can be read back
	what += ", then read"
	if t.fs.N(2) == 0 {
		done, err = t.read(len(t.msgs), what)
		t.broken(n, done, err, what)
		if got := len(t.m.Steps()); got != 2*want {
			t.fail("steps", "%s: %d steps are tracked, want %d", what, got, 2*want)
		}
		return
	}
	// without the breakpoint, the messages recorded whole
	t.m.Breakpoint = 0
	whole := 0
	for whole < len(t.cum) && t.cum[whole] < n {
		whole++
	}
	if done, err := t.read(whole, what); err != nil {
		t.fail("read", "%s: reading message %d: %v", what, done, err)
	}
}

// sweep breaks at every step.
func (t *memoTask) sweep() {
	for n := 1; n <= t.total()+1; n++ {
		t.m.Reset()
		t.breakWriting(n, fmt.Sprintf("sweep %d", n))
	}
	for n := 1; n <= t.total()+1; n++ {
		t.m.Reset()
		what := fmt.Sprintf("sweep %d", n)
		if done, err := t.write(len(t.msgs), what); err != nil {
			t.fail("write", "%s: writing message %d: %v", what, done, err)
		}
		t.breakReading(n, what)
	}
}
