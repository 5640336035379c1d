//go:build go1.25

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C06", run: runC06, quick: 400000, thorough: 12000000, real: realWire, stub: stubNet, cap: 100_000_000,
		rule: "A run is a pool of one or two readers and one or two writers, each used for 2 to 4 streams one after the other (messages abandoned anywhere, transport faults, damaged input, unflushed output, calls out of order), and compared call by call after each Reset with a new one on an identical stream; every run with a Reset is non-trivial.",
	})
}

func runC06(s *simrt.Sim) {
	g := newGen(s)
	g.noMaps()
	g.howP = 2
	knobs := s.Src.Stream("knobs")
	switch knobs.Pick(3, 3, 3, 2, 2) {
	case 0:
		readerHistory(s, g, "r0", knobs)
	case 1:
		writerReset(s, g, "w0", knobs)
	case 2:
		readerHistory(s, g, "r0", knobs)
		writerReset(s, g, "w0", knobs)
	case 3:
		readerRotation(s, g, knobs)
	case 4:
		writerRotation(s, g, knobs)
	}
	s.Policy(3000)
	s.Run()
}

// readerUse is one stream a pooled reader is used for.
type readerUse struct {
	data  []byte
	calls []call
	cut   int
	err   error
	whole bool // valid stream, fully read
	plan  uint64
}

func (u *readerUse) open(s *simrt.Sim, name string) *pipe {
	p := newFile(s, name, netMode{}, u.data)
	p.cutAt, p.cutErr = u.cut, u.err
	p.plan = u.plan
	return p
}

func readerHistory(s *simrt.Sim, g *gen, name string, knobs *simrt.Stream) {
	f := pickFormat(knobs)
	fs := s.Src.Stream("fault")
	var uses []*readerUse
	desc := ""
	for range g.resets(knobs, 2+knobs.N(3)) {
		u := &readerUse{cut: -1, plan: 1 + fs.U64()>>1}
		e := encoder{f: f}
		var msgs []*message
		for range 1 + knobs.Pick(4, 2, 1) {
			m := g.message()
			msgs = append(msgs, m)
			if !m.bare {
				e.message(m.h)
			}
			e.value(m.w)
		}
		u.data = e.b
		switch fs.Pick(4, 3, 3, 3) {
		case 0: // all of it, as intended
			for _, m := range msgs {
				u.calls = append(u.calls, call{name: "message", m: m})
			}
			u.whole = true
		case 1: // a transport fault somewhere
			for _, m := range msgs {
				u.calls = append(u.calls, call{name: "message", m: m})
			}
			u.cut = fs.N(len(u.data) + 1)
			u.err = []error{errReset, io.EOF, errTimeout, errTLS}[fs.N(4)]
			desc += "fault, "
		case 2: // damaged input
			u.data = damage(s, fs, u.data, e.marks, f)
			for _, m := range msgs {
				u.calls = append(u.calls, call{name: "message", m: m})
			}
		case 3: // read piece by piece, and abandoned
			desc += "abandoned, "
		}
		if !u.whole {
			if len(u.data) > 2000 { // only deep values are of interest below
				u.data = u.data[:2000]
			}
			for range fs.N(8) {
				u.calls = append(u.calls, genReadCall(g, fs))
			}
			if fs.N(3) == 0 { // a state that must not survive
				u.calls = append(u.calls, call{name: "ReadStructBegin"}, call{name: "ReadFieldBegin"})
			}
		}
		if fs.N(3) == 0 { // calls that would reveal a remembered state
			odd := []call{{name: []string{"ReadBool", "ReadFieldBegin", "ReadStructEnd", "ReadByte"}[fs.N(4)]}}
			if fs.N(2) == 0 {
				odd = append(odd, call{name: []string{"ReadBool", "ReadFieldBegin", "ReadStructEnd", "ReadByte"}[fs.N(4)]})
			}
			u.calls = append(odd, u.calls...)
			u.whole = false
		}
		if f == fmtCompact && fs.N(6) == 0 { // a boolean field whose value is never asked for
			u.data = append([]byte{0x11}, u.data...)
			u.calls = append([]call{{name: "ReadFieldBegin"}}, u.calls[:fs.N(len(u.calls)+1)]...)
			u.whole = false
		}
		uses = append(uses, u)
		desc += fmt.Sprintf("%d bytes %v; ", len(u.data), u.calls)
	}
	note(s, "%s %v: %s", name, f, clip(desc, 400))
	s.Go(name, func() {
		var x thriftwire.Reader
		var old *pipe
		for i, u := range uses {
			p := u.open(s, fmt.Sprintf("%s-%d", name, i))
			if i == 0 {
				x = f.protocol().NewReader(p)
				for _, c := range u.calls {
					s.Limit(200_000 + 1000*int64(len(u.data)))
					c.read(x)
					s.Unlimit()
				}
				old = p
				continue
			}
			s.Count("nontrivial.reset")
			reads := old.nread
			x.Reset(p)
			twin := u.open(s, fmt.Sprintf("%s-%d-twin", name, i))
			y := f.protocol().NewReader(twin)
			for j, c := range u.calls {
				s.Limit(400_000 + 2000*int64(len(u.data)))
				got, err := c.read(x)
				want, werr := c.read(y)
				s.Unlimit()
				if got != want {
					s.Fail("reset-reader", "%v: stream %d, call %d (%v): after Reset %s; from a new reader %s", f, i, j, c, brief(got), brief(want))
				}
				if (err == nil) != (werr == nil) {
					s.Fail("reset-reader", "%v: stream %d, call %d (%v): after Reset error %v; from a new reader %v", f, i, j, c, err, werr)
				}
				if u.whole {
					if err != nil {
						s.Fail("reset-reader", "%v: stream %d, message %d (%v): %v", f, i, j, c, err)
					}
				}
				s.Event("call", uint64(j))
			}
			if old.nread != reads {
				s.Fail("old-stream", "%v: the reader used the stream it had before Reset", f)
			}
			old = p
		}
	})
}

type writerUse struct {
	calls    []call
	failAt   int
	kind     int
	failN    int
	hasFlush bool
}

func (u *writerUse) open(s *simrt.Sim, name string) (*sink, io.Writer) {
	k := &sink{s: s, name: name, failAt: u.failAt, kind: u.kind, failN: u.failN}
	k.expect = func() []byte { return k.data }
	if u.hasFlush {
		return k, k
	}
	return k, plainSink{k}
}

func writerReset(s *simrt.Sim, g *gen, name string, knobs *simrt.Stream) {
	f := pickFormat(knobs)
	fs := s.Src.Stream("fault")
	var uses []*writerUse
	desc := ""
	for range g.resets(knobs, 2+knobs.N(3)) {
		u := &writerUse{failAt: -1, hasFlush: knobs.N(3) > 0}
		for range knobs.N(3) {
			u.calls = append(u.calls, call{name: "message", m: g.message()})
			if fs.N(3) > 0 {
				u.calls = append(u.calls, call{name: "Flush"})
			}
		}
		if fs.N(3) > 0 {
			for range fs.N(7) {
				u.calls = append(u.calls, genWriteCall(g, fs))
				if fs.N(6) == 5 {
					u.calls = append(u.calls, call{name: "Flush"})
				}
			}
		}
		if fs.N(3) == 0 {
			odd := call{name: []string{"WriteBool", "WriteFieldBegin", "WriteStructEnd"}[fs.N(3)], t: wireTypes[fs.N(12)], i: int64(fs.N(40))}
			u.calls = append([]call{odd}, u.calls...)
		}
		switch fs.Pick(3, 2, 1) {
		case 1:
			u.failAt, u.kind = fs.N(200), []int{0, 2}[fs.N(2)]
		case 2:
			u.failN = 1 + fs.N(2)
		}
		if fs.N(4) > 0 {
			u.calls = append(u.calls, call{name: "Flush"})
		}
		uses = append(uses, u)
		desc += fmt.Sprintf("%v fail at %d; ", u.calls, u.failAt)
	}
	note(s, "%s %v: %s", name, f, clip(desc, 400))
	s.Go(name, func() {
		var x thriftwire.Writer
		var old *sink
		for i, u := range uses {
			k, uw := u.open(s, fmt.Sprintf("%s-%d", name, i))
			if i == 0 {
				x = f.protocol().NewWriter(uw)
				for _, c := range u.calls {
					c.write(x)
				}
				old = k
				continue
			}
			s.Count("nontrivial.reset")
			old.closed = true
			x.Reset(uw)
			twin, tw := u.open(s, fmt.Sprintf("%s-%d-twin", name, i))
			y := f.protocol().NewWriter(tw)
			for j, c := range u.calls {
				err := c.write(x)
				werr := c.write(y)
				if errText(err) != errText(werr) {
					s.Fail("reset-writer", "%v: stream %d, call %d (%v): after Reset %v; from a new writer %v", f, i, j, c, err, werr)
				}
				if c.name == "Flush" && !bytes.Equal(k.data, twin.data) {
					s.Fail("reset-writer", "%v: stream %d, call %d (%v): after Reset %s", f, i, j, c, byteDiff(k.data, twin.data))
				}
				if c.name == "Flush" && k.flushes != twin.flushes {
					s.Fail("reset-writer", "%v: stream %d, call %d: after Reset the underlying writer was flushed %d times; by a new writer %d times", f, i, j, k.flushes, twin.flushes)
				}
				s.Event("call", uint64(j))
			}
			// Reset ends every stream; what was not flushed is lost in either case, what was is the same.
			if i == len(uses)-1 {
				x.Flush()
				y.Flush()
				if !bytes.Equal(k.data, twin.data) {
					s.Fail("reset-writer", "%v: stream %d: at the end %s", f, i, byteDiff(k.data, twin.data))
				}
			}
			old = k
		}
	})
}

// Rotation: one pooled reader or writer goes back and forth between connections that live on, and that their
// owners may have given a buffer of their own, which the protocol may share. Each connection has a twin,
// which gets a new reader or writer at every visit.

type rotVisit struct {
	conn  int
	calls []call
	own   int // the owner's own use of the connection (by number) before the visit; -1: none
}

// ownSizes are the sizes of the buffers that owners put before their connections; 0: none.
func ownSize(s *simrt.Sim, st *simrt.Stream) int {
	b := bufSize(s)
	return []int{0, 16, b, b + 100, 2 * b}[st.Pick(3, 1, 4, 1, 1)]
}

func rotVisits(g *gen, knobs *simrt.Stream, conns int) []rotVisit {
	var vs []rotVisit
	for range g.resets(knobs, 3+knobs.N(4)) {
		v := rotVisit{conn: knobs.N(conns), own: -1}
		if knobs.N(3) == 0 {
			v.own = knobs.N(conns)
		}
		vs = append(vs, v)
	}
	return vs
}

func readerRotation(s *simrt.Sim, g *gen, knobs *simrt.Stream) {
	f := pickFormat(knobs)
	fs := s.Src.Stream("fault")
	conns := 1 + knobs.N(3)
	visits := rotVisits(g, knobs, conns)
	enc := make([]encoder, conns)
	for i := range enc {
		enc[i].f = f
	}
	sizes := make([]int, conns)
	plans := make([]uint64, conns)
	for i := range sizes {
		sizes[i] = ownSize(s, knobs)
		plans[i] = 1 + fs.U64()>>1
	}
	desc := ""
	for i := range visits {
		v := &visits[i]
		e := &enc[v.conn]
		if v.own >= 0 {
			enc[v.own].b = append(enc[v.own].b, 0x5a)
		}
		for range 1 + knobs.Pick(4, 2, 1) {
			m := g.message()
			if !m.bare {
				e.message(m.h)
			}
			e.value(m.w)
			v.calls = append(v.calls, call{name: "message", m: m})
		}
		if fs.N(4) == 0 { // leaves in the middle
			v.calls = v.calls[:len(v.calls)-1]
			for range fs.N(6) {
				v.calls = append(v.calls, genReadCall(g, fs))
			}
		}
		desc += fmt.Sprintf("conn %d (own %d): %v; ", v.conn, v.own, v.calls)
	}
	note(s, "rotation of a reader over %d connections, %v, buffers %v: %s", conns, f, sizes, clip(desc, 400))
	s.Go("rotation", func() {
		open := func(i int, name string) io.Reader {
			p := newFile(s, name, netMode{}, enc[i].b)
			p.plan = plans[i]
			if sizes[i] > 0 {
				return bufio.NewReaderSize(p, sizes[i])
			}
			return p
		}
		var real, twin []io.Reader
		for i := range conns {
			real = append(real, open(i, fmt.Sprintf("conn-%d", i)))
			twin = append(twin, open(i, fmt.Sprintf("twin-%d", i)))
		}
		var x thriftwire.Reader
		for i, v := range visits {
			if v.own >= 0 {
				var a, b [1]byte
				n, err := real[v.own].Read(a[:])
				m, werr := twin[v.own].Read(b[:])
				if n != m || a != b || errText(err) != errText(werr) {
					s.Fail("own-use", "%v: before visit %d: the owner of connection %d reads %d bytes %x, %v; where readers are not reused %d bytes %x, %v", f, i, v.own, n, a, err, m, b, werr)
				}
			}
			if x == nil {
				x = f.protocol().NewReader(real[v.conn])
			} else {
				s.Count("nontrivial.reset")
				x.Reset(real[v.conn])
			}
			y := f.protocol().NewReader(twin[v.conn])
			for j, c := range v.calls {
				s.Limit(400_000 + 4000*int64(len(enc[v.conn].b)))
				got, _ := c.read(x)
				want, _ := c.read(y)
				s.Unlimit()
				if got != want {
					s.Fail("reset-reader", "%v: visit %d, of connection %d, call %d (%v): after Reset %s; from a new reader %s", f, i, v.conn, j, c, brief(got), brief(want))
				}
				s.Event("call", uint64(j))
			}
		}
		for i := range conns {
			got, err := io.ReadAll(real[i])
			want, werr := io.ReadAll(twin[i])
			if !bytes.Equal(got, want) || errText(err) != errText(werr) {
				s.Fail("own-use", "%v: at the end, the owner of connection %d finds %d bytes, %v; where readers are not reused %d bytes, %v", f, i, len(got), err, len(want), werr)
			}
		}
	})
}

func writerRotation(s *simrt.Sim, g *gen, knobs *simrt.Stream) {
	f := pickFormat(knobs)
	fs := s.Src.Stream("fault")
	conns := 1 + knobs.N(3)
	visits := rotVisits(g, knobs, conns)
	sizes := make([]int, conns)
	flusher := make([]bool, conns)
	for i := range sizes {
		sizes[i] = ownSize(s, knobs)
		flusher[i] = knobs.N(2) == 0
	}
	desc := ""
	for i := range visits {
		v := &visits[i]
		for range 1 + knobs.Pick(4, 2, 1) {
			v.calls = append(v.calls, call{name: "message", m: g.message()})
			if fs.N(4) > 0 {
				v.calls = append(v.calls, call{name: "Flush"})
			}
		}
		if fs.N(4) == 0 {
			for range fs.N(6) {
				v.calls = append(v.calls, genWriteCall(g, fs))
			}
		}
		desc += fmt.Sprintf("conn %d (own %d): %v; ", v.conn, v.own, v.calls)
	}
	note(s, "rotation of a writer over %d connections, %v, buffers %v: %s", conns, f, sizes, clip(desc, 400))
	s.Go("rotation", func() {
		var sinks, tsinks []*sink
		open := func(i int, name string, sinks *[]*sink) io.Writer {
			k := &sink{s: s, name: name, failAt: -1}
			k.expect = func() []byte { return k.data }
			*sinks = append(*sinks, k)
			var w io.Writer = k
			if !flusher[i] {
				w = plainSink{k}
			}
			if sizes[i] > 0 {
				return bufio.NewWriterSize(w, sizes[i])
			}
			return w
		}
		var real, twin []io.Writer
		for i := range conns {
			real = append(real, open(i, fmt.Sprintf("conn-%d", i), &sinks))
			twin = append(twin, open(i, fmt.Sprintf("twin-%d", i), &tsinks))
		}
		same := func(i int, what string) {
			for c := range conns {
				if !bytes.Equal(sinks[c].data, tsinks[c].data) {
					s.Fail("reset-writer", "%v: visit %d, %s: connection %d: where writers are not reused %s", f, i, what, c, byteDiff(sinks[c].data, tsinks[c].data))
				}
			}
		}
		own := func(i, c int, b []byte) {
			_, err := real[c].Write(b)
			_, werr := twin[c].Write(b)
			ferr, fwerr := thriftwire.Flush(real[c]), thriftwire.Flush(twin[c])
			if errText(err) != errText(werr) || errText(ferr) != errText(fwerr) {
				s.Fail("own-use", "%v: before visit %d: the owner of connection %d gets %v, %v; where writers are not reused %v, %v", f, i, c, err, ferr, werr, fwerr)
			}
			same(i, "the owner's own bytes")
		}
		var x thriftwire.Writer
		for i, v := range visits {
			if v.own >= 0 {
				own(i, v.own, []byte("own"))
			}
			if x == nil {
				x = f.protocol().NewWriter(real[v.conn])
			} else {
				s.Count("nontrivial.reset")
				x.Reset(real[v.conn])
			}
			y := f.protocol().NewWriter(twin[v.conn])
			for j, c := range v.calls {
				err := c.write(x)
				werr := c.write(y)
				if errText(err) != errText(werr) {
					s.Fail("reset-writer", "%v: visit %d, of connection %d, call %d (%v): after Reset %v; from a new writer %v", f, i, v.conn, j, c, err, werr)
				}
				if c.name == "Flush" {
					same(i, fmt.Sprintf("call %d (%v)", j, c))
				}
				s.Event("call", uint64(j))
			}
		}
		for i := range conns {
			own(len(visits), i, nil)
		}
	})
}
