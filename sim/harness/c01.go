//go:build go1.25

package main

import (
	"fmt"
	"io"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

var (
	realWire = []string{"encoding/thriftbinary", "encoding/thriftcompact", "encoding/thriftwire", "thrift", "bufio and reflect of the Go library"}
	stubNet  = []string{"network connections (io.Reader, io.Writer)", "scheduler", "clock", "sync primitives", "map iteration order"}
)

func init() {
	register(&scenario{
		id: "C01", run: runC01, quick: 120000, thorough: 3600000, real: realWire, stub: stubNet,
		rule: "A run is 1 to 3 connections, each with a writer and a reader task, a protocol, a segmentation, latency and short-read mode, and 1 to 6 generated messages; non-trivial if more than two task switches happened or the network misbehaved (short, empty, stalled or error-carrying reads).",
	})
}

// connection is a byte stream with messages on it.
type connection struct {
	name string
	f    format
	p    *pipe
	msgs []*message
}

func runC01(s *simrt.Sim) {
	g := newGen(s)
	knobs := s.Src.Stream("knobs")
	n := 1 + knobs.Pick(5, 3, 1)
	for i := range n {
		c := &connection{name: fmt.Sprintf("c%d", i), f: pickFormat(knobs)}
		c.p = newPipe(s, c.name, drawNetMode(knobs))
		for range g.many(knobs, 1+knobs.Pick(2, 3, 2, 1, 1, 1)) {
			m := g.message()
			if !m.bare && g.st.N(12) == 11 { // a type that has no name yet
				m.h.Type = thriftwire.MessageType(g.st.N(8))
				if c.f != fmtCompact && g.st.N(2) == 1 {
					m.h.Type = thriftwire.MessageType(g.st.N(256))
				}
			}
			c.msgs = append(c.msgs, m)
		}
		said := c.msgs
		if i == 0 && knobs.N(2000) == 1999 { // more messages than any counter holds
			m := g.tinyMessages(1 + knobs.N(5))
			for len(c.msgs) < 65536+600 {
				c.msgs = append(c.msgs, m...)
			}
			said = m
			s.Count("nontrivial.very-many-messages")
		}
		flushEach := knobs.N(3) > 0
		endBare := knobs.N(2) == 1
		note(s, "%s %v %+v: %d messages, %v", c.name, c.f, c.p.m, len(c.msgs), said)
		s.Go("writer-"+c.name, func() {
			x := c.f.protocol().NewWriter(c.p)
			for i, m := range c.msgs {
				if err := send(x, m); err != nil {
					s.Fail("write-error", "%s: writing %v: %v", c.f, m, err)
				}
				if flushEach || i == len(c.msgs)-1 {
					if err := x.Flush(); err != nil {
						s.Fail("write-error", "%s: Flush: %v", c.f, err)
					}
				}
				s.Event("sent", uint64(i))
			}
			c.p.CloseWrite()
		})
		s.Go("reader-"+c.name, func() {
			x := c.f.protocol().NewReader(c.p)
			for i, m := range c.msgs {
				if d := m.same(recv(x, m)); d != "" {
					s.Fail("roundtrip", "%s: message %d of %d (%v): %s", c.f, i+1, len(c.msgs), m, d)
				}
				s.Event("received", uint64(i))
			}
			// Nothing may be left over.
			var err error
			if endBare {
				_, err = x.ReadByte()
			} else {
				_, err = x.ReadMessageBegin()
			}
			if err != io.EOF {
				s.Fail("left-over", "%s: after %d messages the end of the stream is reported as %v, want io.EOF", c.f, len(c.msgs), err)
			}
			if c.p.read != len(c.p.accepted) {
				s.Fail("left-over", "%s: %d of %d bytes read", c.f, c.p.read, len(c.p.accepted))
			}
		})
	}
	s.Policy(3000 * n)
	s.Run()
}

var _ thriftwire.Reader
