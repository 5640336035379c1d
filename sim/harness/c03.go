//go:build go1.25

package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C03", run: runC03, quick: 400000, thorough: 12000000, real: realWire, stub: stubNet,
		rule: "A run is 1 or 2 streams of 1 to 4 messages as a conforming peer writes them, each cut at one offset (an item boundary, one byte beside it, a message boundary or anywhere) by truncation, reset, a transient timeout, an unexpected end or reads without progress, reported alone or together with the last data; non-trivial if the cut was reached.",
	})
}

// stream is what a peer sent, with the boundaries of its messages.
type stream struct {
	f     format
	msgs  []*message
	b     []byte
	ends  []int
	marks []int
}

func (st *stream) encode(peer *simrt.Stream, s *simrt.Sim) {
	e := encoder{f: st.f, st: peer, cnt: s.Counts}
	for _, m := range st.msgs {
		if !m.bare {
			e.message(m.h)
		}
		e.value(m.w)
		st.ends = append(st.ends, len(e.b))
	}
	st.b, st.marks = e.b, e.marks
}

func runC03(s *simrt.Sim) {
	g := newGen(s)
	g.howP = 2
	knobs := s.Src.Stream("knobs")
	n := 1 + knobs.Pick(4, 1)
	for i := range n {
		name := fmt.Sprintf("c%d", i)
		st := &stream{f: pickFormat(knobs)}
		for range g.many(knobs, 1+knobs.Pick(4, 3, 2, 1)) {
			st.msgs = append(st.msgs, g.message())
		}
		var peer *simrt.Stream
		if knobs.N(2) == 1 {
			peer = s.Src.Stream("peer")
		}
		st.encode(peer, s)
		fs := s.Src.Stream("fault")
		cut := 0
		switch fs.Pick(4, 2, 2) {
		case 0:
			cut = st.marks[fs.N(len(st.marks))] + fs.N(3) - 1
		case 1:
			cut = fs.N(len(st.b) + 1)
		case 2:
			cut = append([]int{0}, st.ends...)[fs.N(len(st.ends)+1)]
		}
		cut = max(0, min(cut, len(st.b)))
		kind := []error{io.EOF, errReset, errTimeout, io.ErrUnexpectedEOF, errStall, errTLS}[fs.Pick(4, 3, 2, 1, 1, 1)]
		m := drawNetMode(knobs)
		live := kind == io.EOF && fs.N(3) == 2
		var p *pipe
		if live { // the writer dies after sending a prefix
			p = newPipe(s, name, m)
			s.Go("dying-"+name, func() {
				p.Write(st.b[:cut])
				s.Fault("writer-crash", cut)
				p.CloseWrite()
			})
		} else {
			p = newFile(s, name, m, st.b)
			p.cutAt, p.cutErr, p.cutOnce = cut, kind, kind == errTimeout
			// bufio.Reader.Discard reads on past a transient error that came with data.
			p.cutInData = fs.N(2) == 1 && kind != errTimeout
		}
		note(s, "%s %v cut at %d of %d by %s: %v", name, st.f, cut, len(st.b), faultName(kind), st.msgs)
		s.Go("reader-"+name, func() { checkCut(s, st, p, cut, kind) })
	}
	s.Policy(1500 * n)
	s.Run()
}

func isCause(err, cause error) bool {
	switch cause {
	case io.EOF:
		return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
	case errStall:
		return errors.Is(err, io.ErrNoProgress) || errors.Is(err, errReset)
	}
	return errors.Is(err, cause)
}

func checkCut(s *simrt.Sim, st *stream, p *pipe, cut int, kind error) {
	x := st.f.protocol().NewReader(p)
	start := 0
	for i, m := range st.msgs {
		r := recv(x, m)
		if st.ends[i] <= cut {
			if d := m.same(r); d != "" {
				s.Fail("before-fault", "%v: message %d (%v) was complete at byte %d, before the fault at %d: %s", st.f, i, m, st.ends[i], cut, d)
			}
			s.Event("whole", uint64(i))
			start = st.ends[i]
			continue
		}
		where := fmt.Sprintf("%v: message %d (%v) at bytes %d to %d, %s at %d", st.f, i, m, start, st.ends[i], faultName(kind), cut)
		if r.err == nil {
			s.Fail("no-error", "%s: decoding reports success", where)
		}
		if !isCause(r.err, kind) {
			s.Fail("cause", "%s: %s returned %v, which does not lead to the cause", where, r.part, r.err)
		}
		if kind == io.EOF && cut == start && !m.bare && r.err != io.EOF {
			s.Fail("eof", "%s: the end between two messages is reported as %v, want io.EOF", where, r.err)
		}
		if r.dst.IsValid() {
			if d := partDiff(r.dst, m.want); d != "" {
				s.Fail("invented", "%s: the destination holds data that was not sent: %s", where, d)
			}
		}
		s.EventStr("failed", r.part)
		return
	}
	if _, err := x.ReadMessageBegin(); err == nil || !isCause(err, kind) {
		s.Fail("eof", "%v: after all messages ReadMessageBegin returned %v, want %v", st.f, err, kind)
	} else if kind == io.EOF && err != io.EOF {
		s.Fail("eof", "%v: after all messages ReadMessageBegin returned %v, want io.EOF", st.f, err)
	}
}
