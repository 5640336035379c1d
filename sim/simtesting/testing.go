//go:build go1.25

// Package simtesting replaces package testing in testing/thrifttest, so that the simulator can run the
// conformance suite and see whether it passed.
package simtesting

import "fmt"

// TB is the part of testing.TB that a suite can use.
type TB interface {
	Cleanup(func())
	Error(args ...any)
	Errorf(format string, args ...any)
	Fail()
	FailNow()
	Failed() bool
	Fatal(args ...any)
	Fatalf(format string, args ...any)
	Helper()
	Log(args ...any)
	Logf(format string, args ...any)
	Name() string
	Skip(args ...any)
	SkipNow()
	Skipf(format string, args ...any)
	Skipped() bool
}

// T is a test in progress.
type T struct {
	name            string
	parent          *T
	failed, skipped bool
	cleanup         []func()
	rep             *Report
}

// Report is the outcome of a suite.
type Report struct {
	Failed  []string // names of failed tests
	Skipped []string
	Passed  []string
	Log     []string
}

type stop struct{ t *T }

// RunSuite runs f as a test.
func RunSuite(f func(*T)) *Report {
	rep := &Report{}
	(&T{name: "Suite", rep: rep}).run(f)
	return rep
}

func (t *T) run(f func(*T)) {
	defer func() {
		for len(t.cleanup) > 0 {
			c := t.cleanup[len(t.cleanup)-1]
			t.cleanup = t.cleanup[:len(t.cleanup)-1]
			c()
		}
		switch {
		case t.failed:
			t.rep.Failed = append(t.rep.Failed, t.name)
			if t.parent != nil {
				t.parent.failed = true
			}
		case t.skipped:
			t.rep.Skipped = append(t.rep.Skipped, t.name)
		default:
			t.rep.Passed = append(t.rep.Passed, t.name)
		}
		if r := recover(); r != nil {
			if st, ok := r.(stop); !ok || st.t != t {
				panic(r)
			}
		}
	}()
	f(t)
}

func (t *T) Run(name string, f func(*T)) bool {
	s := &T{name: t.name + "/" + name, parent: t, rep: t.rep}
	s.run(f)
	return !s.failed
}

func (t *T) Parallel()                 {}
func (t *T) Helper()                   {}
func (t *T) Name() string              { return t.name }
func (t *T) Failed() bool              { return t.failed }
func (t *T) Skipped() bool             { return t.skipped }
func (t *T) Cleanup(f func())          { t.cleanup = append(t.cleanup, f) }
func (t *T) Fail()                     { t.failed = true }
func (t *T) FailNow()                  { t.failed = true; panic(stop{t}) }
func (t *T) SkipNow()                  { t.skipped = true; panic(stop{t}) }
func (t *T) Log(args ...any)           { t.rep.Log = append(t.rep.Log, t.name+": "+fmt.Sprintln(args...)) }
func (t *T) Logf(f string, a ...any)   { t.Log(fmt.Sprintf(f, a...)) }
func (t *T) Error(args ...any)         { t.Log(args...); t.Fail() }
func (t *T) Errorf(f string, a ...any) { t.Logf(f, a...); t.Fail() }
func (t *T) Fatal(args ...any)         { t.Log(args...); t.FailNow() }
func (t *T) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *T) Skip(args ...any)          { t.Log(args...); t.SkipNow() }
func (t *T) Skipf(f string, a ...any)  { t.Logf(f, a...); t.SkipNow() }

func Short() bool   { return false }
func Verbose() bool { return false }
func Testing() bool { return true }
