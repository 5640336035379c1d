//go:build go1.25

package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C11", run: runC11, quick: 300000, thorough: 9000000, real: realWire, stub: stubNet,
		rule: "A run is 1 to 4 connections between nodes in the course of a rolling upgrade; each node's protocol (plain or joined, also nested) changes when it restarts, so that formats change in the middle of a connection, and some messages carry another version or protocol ID; readers must accept exactly what their variant reads and return an error for the first other message, without needing more bytes. Every run with a format change, a joined protocol or a wrong version is non-trivial.",
	})
}

// variant is one incarnation's protocol.
type variant struct {
	r, w format
	p    thriftwire.Protocol
	desc string
}

func drawVariant(s *simrt.Sim, st *simrt.Stream) variant {
	v := variant{r: pickFormat(st), w: pickFormat(st)}
	switch st.Pick(2, 4, 2) {
	case 0:
		v.w = v.r
		v.p = v.r.protocol()
	case 1:
		v.p = thriftwire.JoinProtocol(v.r.protocol(), v.w.protocol())
		s.Count("nontrivial.joined")
	case 2: // joined protocols as parts of joined protocols
		a, b := pickFormat(st).protocol(), pickFormat(st).protocol()
		v.p = thriftwire.JoinProtocol(thriftwire.JoinProtocol(v.r.protocol(), a), thriftwire.JoinProtocol(b, v.w.protocol()))
		s.Count("nontrivial.joined")
	}
	v.desc = fmt.Sprintf("reads %v writes %v", v.r, v.w)
	return v
}

// reads tells whether a reader of one variant accepts what a writer of another writes.
func reads(r, w format) bool {
	return r == w || r == fmtOld && w == fmtStrict
}

// badHeader damages the version of an encoded message header.
func badHeader(s *simrt.Sim, st *simrt.Stream, f format, b []byte) bool {
	switch f {
	case fmtStrict:
		v := []uint16{0x8002, 0x8000, 0xffff, 0x9001, 0x8011, 0x8101, 0xc001, 0x8003}[st.N(8)]
		binary.BigEndian.PutUint16(b, v)
	case fmtCompact:
		if st.N(2) == 0 {
			b[0] = []byte{0x83, 0x81, 0x80, 0x00, 0x02, 0xff, 0x92, 0xc2}[st.N(8)]
		} else {
			v := 2 + st.N(30)
			if st.N(4) == 0 {
				v = 0
			}
			b[1] = b[1]&0xe0 | byte(v)
		}
	default:
		return false
	}
	s.Fault("wrong-version", st.N(1)+int(b[0]))
	return true
}

func runC11(s *simrt.Sim) {
	g := newGen(s)
	g.bareP = 0
	g.tiny()
	knobs := s.Src.Stream("knobs")
	st := s.Src.Stream("upgrade")
	n := 1 + knobs.Pick(3, 2, 1, 1)
	for i := range n {
		upgradeConn(s, g, st, fmt.Sprintf("c%d", i), knobs)
	}
	s.Policy(2000 * n)
	s.Run()
}

type upgradeMsg struct {
	m   *message
	f   format // on the wire
	bad bool
	b   []byte // if made by a peer
	v   variant
	ok  bool
}

func upgradeConn(s *simrt.Sim, g *gen, st *simrt.Stream, name string, knobs *simrt.Stream) {
	reader := drawVariant(s, st)
	writer := drawVariant(s, st)
	mixed := st.N(2) == 1
	if mixed { // most real upgrades go through a reader of both
		reader.r = fmtOld
		reader.p = thriftwire.JoinProtocol(fmtOld.protocol(), pickFormat(st).protocol())
		reader.desc = "reads binary-old (both)"
	}
	var msgs []*upgradeMsg
	desc := ""
	for i := range g.many(st, 1+st.Pick(1, 2, 2, 1, 1)) {
		if i > 0 && st.N(2) == 1 {
			w := drawVariant(s, st)
			if mixed && st.N(4) > 0 && w.w == fmtCompact {
				w.w = fmtStrict
				w.p = fmtStrict.protocol()
			}
			if w.w != writer.w {
				s.Count("nontrivial.format-change")
			}
			writer = w
		}
		u := &upgradeMsg{m: g.message(), f: writer.w, v: writer}
		u.ok = reads(reader.r, u.f)
		if st.N(8) == 7 {
			e := encoder{f: u.f, st: s.Src.Stream("peer"), cnt: s.Counts}
			e.message(u.m.h)
			e.value(u.m.w)
			u.b = e.b
			if u.ok && st.N(2) == 1 && badHeader(s, st, u.f, u.b) {
				u.bad, u.ok = true, false
			}
		}
		msgs = append(msgs, u)
		desc += fmt.Sprintf("%v%s ", u.f, map[bool]string{true: "(wrong version)"}[u.bad])
	}
	note(s, "%s %s: %s", name, reader.desc, desc)
	p := newPipe(s, name, drawNetMode(knobs))
	gone := false
	s.Go("writers-"+name, func() {
		var x thriftwire.Writer
		var last variant
		for i, u := range msgs {
			if gone {
				return
			}
			if u.b != nil {
				p.Write(u.b)
				s.Event("sent", uint64(i))
				continue
			}
			if x == nil || u.v.p != last.p || st.N(4) == 3 { // the node restarts
				x = u.v.p.NewWriter(p)
				last = u.v
			}
			before := len(p.accepted)
			if err := send(x, u.m); err != nil {
				s.Fail("write-error", "%s: %v", u.v.desc, err)
			}
			if err := x.Flush(); err != nil {
				s.Fail("write-error", "%s: %v", u.v.desc, err)
			}
			checkFormat(s, u, p.accepted[before:])
			s.Event("sent", uint64(i))
		}
	})
	s.Go("reader-"+name, func() {
		defer func() { gone = true; p.abandon() }()
		x := reader.p.NewReader(p)
		for i, u := range msgs {
			where := fmt.Sprintf("%s (%s): message %d of %d, written as %v", name, reader.desc, i+1, len(msgs), u.f)
			if !u.ok {
				h, err := x.ReadMessageBegin()
				if err == nil {
					s.Fail("misread", "%s%s, was accepted: %+v", where, map[bool]string{true: " with a wrong version"}[u.bad], h)
				}
				s.EventStr("rejected", errKind(err))
				return
			}
			if d := u.m.same(recv(x, u.m)); d != "" {
				s.Fail("upgrade", "%s: %v: %s", where, u.m, d)
			}
			s.Event("read", uint64(i))
		}
	})
}

func errKind(err error) string {
	t := err.Error()
	return t[:min(len(t), strings.IndexByte(t+":", ':'))]
}

// checkFormat decodes what the library wrote as the format the joined protocol's second part stands for.
func checkFormat(s *simrt.Sim, u *upgradeMsg, b []byte) {
	d := decoder{f: u.f, b: b}
	h, err := d.message()
	if err == nil && h != u.m.h {
		err = fmt.Errorf("header %+v, want %+v", h, u.m.h)
	}
	var w *W
	if err == nil {
		w, err = d.read(u.m.w.T)
	}
	if err == nil && d.p != len(b) {
		err = fmt.Errorf("%d bytes left over", len(b)-d.p)
	}
	if err == nil {
		if df := diffW(w, u.m.w); df != "" {
			err = fmt.Errorf("%s", df)
		}
	}
	if err != nil {
		s.Fail("writes", "a protocol that %s wrote % x...: as %v: %v", u.v.desc, b[:min(len(b), 12)], u.f, err)
	}
}
