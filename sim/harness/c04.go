//go:build go1.25

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C04", run: runC04, quick: 500000, thorough: 15000000, real: realWire, stub: []string{"the underlying writer (disk, socket or buffering transport)", "scheduler", "map iteration order"},
		rule: "A run is one or two writers that write, flush and reset through 3 to 12 operations onto sinks that fail at a byte offset (error, short write, error after all bytes) or at a Flush; non-trivial if a fault fired, a Reset happened or more than two task switches.",
	})
}

// sink is a transport to write to.
type sink struct {
	s        *simrt.Sim
	name     string
	data     []byte
	expect   func() []byte
	failAt   int // offset; -1 never
	kind     int // 0 error with the bytes before failAt taken, 1 short write without error, 2 all taken and an error
	short    bool
	once     bool
	failN    int // Flush number that fails; 0 never
	flushes  int
	flushed  int // bytes accepted at the last successful Flush
	failed   error
	closed   bool
	maxChunk int
}

// plainSink hides Flush.
type plainSink struct{ k *sink }

func (p plainSink) Write(b []byte) (int, error) { return p.k.Write(b) }

func (k *sink) Write(b []byte) (int, error) {
	simrt.Yield()
	if k.closed {
		k.s.Fail("old-stream", "%s received %d bytes after Reset to another writer", k.name, len(b))
	}
	n, err := len(b), error(nil)
	if k.failAt >= 0 && len(k.data)+n > k.failAt {
		switch k.kind {
		case 0:
			n, err = k.failAt-len(k.data), errDisk
			k.failed = errDisk
			k.s.Fault("write.error", k.failAt)
		case 1:
			n = max(1, k.failAt-len(k.data)) // no progress at all would break the contract of io.Writer for good
			k.short = true
			k.s.Fault("write.short", k.failAt)
		case 2:
			err = errReset
			k.failed = errReset
			k.s.Fault("write.all-and-error", k.failAt)
		}
		n = max(n, 0)
		if k.once {
			k.failAt = -1
		} else if k.kind > 0 {
			k.failAt = len(k.data) + n
			k.kind = 0
		}
	}
	k.data = append(k.data, b[:n]...)
	if e, from := k.expect(), len(k.data)-n; len(e) < len(k.data) || !bytes.Equal(k.data[from:], e[from:len(k.data)]) || len(k.data) < 5000 && !bytes.HasPrefix(e, k.data) {
		k.s.Fail("prefix", "%s: the accepted bytes are no prefix of the encoding: %s", k.name, byteDiff(k.data, e))
	}
	return n, err
}

func (k *sink) Flush() error {
	simrt.Yield()
	if k.closed {
		k.s.Fail("old-stream", "%s was flushed after Reset to another writer", k.name)
	}
	k.flushes++
	if k.flushes == k.failN {
		k.s.Fault("flush.error", k.failN)
		return errFlush
	}
	k.flushed = len(k.data)
	return nil
}

func byteDiff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	g, w := got[i:min(len(got), i+12)], want[i:min(len(want), i+12)]
	return fmt.Sprintf("%d bytes and %d expected, differing at %d: % x, want % x", len(got), len(want), i, g, w)
}

func runC04(s *simrt.Sim) {
	g := newGen(s)
	g.noMaps()
	g.rawP, g.howP, g.bareP = 3, 0, 3
	knobs := s.Src.Stream("knobs")
	n := 1 + knobs.Pick(5, 1)
	for i := range n {
		writerHistory(s, g, fmt.Sprintf("w%d", i), knobs)
	}
	s.Policy(1500 * n)
	s.Run()
}

type wop struct {
	kind int // 0 message, 1 Flush, 2 Reset
	m    *message
	b    []byte // its encoding
	k    *sink
	flsh bool // the sink has a Flush method
}

func writerHistory(s *simrt.Sim, g *gen, name string, knobs *simrt.Stream) {
	f := pickFormat(knobs)
	fs := s.Src.Stream("fault")
	newSink := func(i int, size int) *sink {
		k := &sink{s: s, name: fmt.Sprintf("%s-sink%d", name, i), failAt: -1}
		switch fs.Pick(3, 4, 2) {
		case 1:
			k.kind = fs.N(3)
			k.failAt = fs.N(size + 1)
			k.once = fs.N(3) == 2
		case 2:
			k.failN = 1 + fs.N(3)
		}
		return k
	}
	// The history, with the encoding of each item as a writer without faults makes it.
	var twin bytes.Buffer
	tw := f.protocol().NewWriter(&twin)
	var ops []wop
	size := 0
	for range g.many(knobs, 2+knobs.N(9)) {
		switch knobs.Pick(5, 3, 1) {
		case 0:
			m := g.message()
			twin.Reset()
			if err := send(tw, m); err != nil {
				s.Fail("write-error", "%v: writing %v without faults: %v", f, m, err)
			}
			if err := tw.Flush(); err != nil {
				s.Fail("write-error", "%v: Flush without faults: %v", f, err)
			}
			ops = append(ops, wop{kind: 0, m: m, b: append([]byte(nil), twin.Bytes()...)})
			size += twin.Len()
		case 1:
			ops = append(ops, wop{kind: 1})
		case 2:
			ops = append(ops, wop{kind: 2})
		}
	}
	ops = append(ops, wop{kind: 1})
	if fs.N(4) == 3 {
		ops = append(ops, wop{kind: 1}) // again
	}
	nsink := 0
	mk := func(o *wop) {
		o.k = newSink(nsink, size)
		o.flsh = knobs.N(3) > 0
		nsink++
	}
	first := wop{kind: 2}
	mk(&first)
	for i := range ops {
		if ops[i].kind == 2 {
			mk(&ops[i])
		}
	}
	note(s, "%s %v: %s", name, f, opsNote(ops))
	s.Go(name, func() {
		var x thriftwire.Writer
		var k *sink
		var want []byte
		var hasFlush bool
		var reported bool
		open := func(o *wop) {
			if k != nil {
				k.closed = true
			}
			k, hasFlush, want, reported = o.k, o.flsh, nil, false
			k.expect = func() []byte { return want }
			var uw io.Writer = k
			if !hasFlush {
				uw = plainSink{k}
			}
			if x == nil {
				x = f.protocol().NewWriter(uw)
			} else {
				s.Count("nontrivial.reset")
				x.Reset(uw)
			}
		}
		open(&first)
		for i := range ops {
			o := &ops[i]
			switch o.kind {
			case 0:
				want = append(want, o.b...)
				err := send(x, o.m)
				if err != nil {
					checkWriteErr(s, f, k, "writing", err)
					reported = true
				}
			case 1:
				before := k.flushes
				err := x.Flush()
				if err == nil {
					if k.failed != nil && !reported {
						s.Fail("lost-error", "%v: Flush returned nil although the underlying writer failed (%v)", f, k.failed)
					}
					if !bytes.Equal(k.data, want) {
						s.Fail("false-success", "%v: Flush returned nil but the transport has %s", f, byteDiff(k.data, want))
					}
					if hasFlush && k.flushes == before {
						s.Fail("flush-not-forwarded", "%v: Flush returned nil but did not call Flush of the underlying writer", f)
					}
					if hasFlush && k.flushed != len(k.data) {
						s.Fail("flush-order", "%v: the underlying writer was flushed at byte %d, but has %d", f, k.flushed, len(k.data))
					}
					if hasFlush && k.flushes == k.failN {
						s.Fail("lost-error", "%v: Flush returned nil although Flush of the underlying writer failed", f)
					}
				} else {
					flushFailed := k.flushes > before && k.flushes == k.failN
					switch {
					case flushFailed && errors.Is(err, errFlush):
					default:
						checkWriteErr(s, f, k, "Flush", err)
						reported = true
					}
				}
			case 2:
				open(o)
			}
			s.Event("op", uint64(i)<<8|uint64(o.kind))
			s.Event("bytes", uint64(len(k.data)))
		}
	})
}

func checkWriteErr(s *simrt.Sim, f format, k *sink, what string, err error) {
	if k.short && errors.Is(err, io.ErrShortWrite) {
		return
	}
	if k.failed == nil {
		s.Fail("spurious-error", "%v: %s returned %v although the underlying writer never failed", f, what, err)
	}
	if !errors.Is(err, k.failed) {
		s.Fail("cause", "%v: %s returned %v, which does not lead to the cause %v", f, what, err, k.failed)
	}
}

func opsNote(ops []wop) string {
	s := ""
	for _, o := range ops {
		switch o.kind {
		case 0:
			s += o.m.String() + ", "
		case 1:
			s += "flush, "
		case 2:
			s += "reset, "
		}
	}
	return s
}
