//go:build go1.25

package main

import (
	"bufio"
	"encoding/binary"
	"fmt"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C02", run: runC02, quick: 160000, thorough: 4800000, real: realWire, stub: stubNet,
		rule: "A run is 1 or 2 connections that stay open: request and reply peers, a feed whose next message is sent only after the previous one was decoded, or the exported buffer helpers fed item by item; a task that waits for a byte nobody will send is a violation. Non-trivial as for C01.",
	})
}

func runC02(s *simrt.Sim) {
	g := newGen(s)
	g.howP = 2
	g.bareP = 3
	knobs := s.Src.Stream("knobs")
	n := 1 + knobs.Pick(3, 1)
	for i := range n {
		name := fmt.Sprintf("c%d", i)
		switch knobs.Pick(4, 4, 2) {
		case 0:
			requestReply(s, g, name, knobs)
		case 1:
			gatedFeed(s, g, name, knobs)
		case 2:
			gatedHelpers(s, g, name, knobs)
		}
	}
	s.Policy(3000 * n)
	s.Run()
}

// requestReply is a client and a server over one connection, both using the library.
func requestReply(s *simrt.Sim, g *gen, name string, knobs *simrt.Stream) {
	f, b := pickFormat(knobs), pickFormat(knobs) // the two directions may differ
	up, down := newPipe(s, name+"-up", drawNetMode(knobs)), newPipe(s, name+"-down", drawNetMode(knobs))
	depth := 1 + knobs.Pick(3, 1, 1) // requests in flight
	if depth > 1 {
		up.m.window, down.m.window = 0, 0
	}
	var req, rep []*message
	for range depth * g.many(knobs, 1+knobs.N(3)) {
		req = append(req, g.message())
		rep = append(rep, g.message())
	}
	oneShot := knobs.N(2) == 1 // flush a pipeline of requests at once
	note(s, "%s request-reply %v/%v depth %d: %v %v", name, f, b, depth, req, rep)
	write := func(x thriftwire.Writer, m *message, flush bool) {
		if err := send(x, m); err != nil {
			s.Fail("write-error", "writing %v: %v", m, err)
		}
		if flush {
			if err := x.Flush(); err != nil {
				s.Fail("write-error", "Flush: %v", err)
			}
		}
	}
	s.Go("client-"+name, func() {
		x, y := f.protocol().NewWriter(up), b.protocol().NewReader(down)
		for i := 0; i < len(req); i += depth {
			for j := range depth {
				write(x, req[i+j], !oneShot || j == depth-1)
			}
			for j := range depth {
				if d := rep[i+j].same(recv(y, rep[i+j])); d != "" {
					s.Fail("decode", "%v: reply %d (%v): %s", b, i+j, rep[i+j], d)
				}
				s.Event("reply", uint64(i+j))
			}
		}
	})
	s.Go("server-"+name, func() {
		x, y := b.protocol().NewWriter(down), f.protocol().NewReader(up)
		for i := range req {
			if d := req[i].same(recv(y, req[i])); d != "" {
				s.Fail("decode", "%v: request %d (%v): %s", f, i, req[i], d)
			}
			s.Event("request", uint64(i))
			write(x, rep[i], true)
		}
	})
}

// gate lets one side wait for the other outside the connection.
type gate struct {
	n int
	c simrt.Cond
}

func (g *gate) open(s *simrt.Sim) { g.n++; g.c.Broadcast(s) }
func (g *gate) wait(s *simrt.Sim, n int) { // the other side must get to n by itself
	for g.n < n {
		g.c.Wait(s, fmt.Sprintf("the reader to take item %d, all bytes of which are sent", n))
	}
}

// gatedFeed sends a message, made by any conforming peer, only after the one before was taken.
func gatedFeed(s *simrt.Sim, g *gen, name string, knobs *simrt.Stream) {
	f := pickFormat(knobs)
	p := newPipe(s, name, drawNetMode(knobs))
	var msgs []*message
	for range g.many(knobs, 1+knobs.N(4)) {
		msgs = append(msgs, g.message())
	}
	var peer *simrt.Stream
	if knobs.N(2) == 1 {
		peer = s.Src.Stream("peer")
	}
	note(s, "%s feed %v: %v", name, f, msgs)
	var ga gate
	s.Go("feed-"+name, func() {
		for i, m := range msgs {
			e := encoder{f: f, st: peer, cnt: s.Counts}
			if !m.bare {
				e.message(m.h)
			}
			e.value(m.w)
			p.Write(e.b)
			ga.wait(s, i+1)
		}
	})
	s.Go("taker-"+name, func() {
		x := f.protocol().NewReader(p)
		for i, m := range msgs {
			if d := m.same(recv(x, m)); d != "" {
				s.Fail("decode", "%v: message %d (%v): %s", f, i, m, d)
			}
			s.Event("taken", uint64(i))
			ga.open(s)
		}
	})
}

// gatedHelpers does the same with single items and the exported helpers that read from a bufio.Reader.
func gatedHelpers(s *simrt.Sim, g *gen, name string, knobs *simrt.Stream) {
	p := newPipe(s, name, drawNetMode(knobs))
	st := s.Src.Stream("items")
	size := []int{64, 16, 4096}[st.N(3)]
	type item struct {
		what string
		b    []byte
		read func(b *bufio.Reader) (any, error)
		want any
	}
	var items []item
	for range 1 + st.N(5) {
		var it item
		switch st.N(7) {
		case 0:
			v := uint64(genInt(st))
			it = item{"ReadUvarint", binary.AppendUvarint(nil, v), func(b *bufio.Reader) (any, error) { return thriftwire.ReadUvarint(b) }, v}
		case 1:
			v := genInt(st)
			it = item{"ReadVarint", binary.AppendVarint(nil, v), func(b *bufio.Reader) (any, error) { return thriftwire.ReadVarint(b) }, v}
		case 2, 3, 4:
			d := pattern(st.N(100), []int{0, 1, size - 1, size, size + 1, 2 * size, 3*size + 5, st.N(300)}[st.N(8)])
			n := len(d)
			switch st.N(3) {
			case 0:
				it = item{"ReadString", d, func(b *bufio.Reader) (any, error) { return thriftwire.ReadString(b, n) }, string(d)}
			case 1:
				prefix := pattern(st.N(100), st.N(5))
				it = item{"ReadBytes", d, func(b *bufio.Reader) (any, error) {
					r, err := thriftwire.ReadBytes(b, n, append([]byte(nil), prefix...))
					return string(r), err
				}, string(prefix) + string(d)}
			case 2:
				d = d[:min(n, size)]
				n = len(d)
				it = item{"Next", d, func(b *bufio.Reader) (any, error) { r, err := thriftwire.Next(b, n); return string(r), err }, string(d)}
			}
		case 5:
			e := encoder{f: fmtCompact}
			h := thriftwire.MapHeader{Key: wireTypes[st.N(12)], Value: wireTypes[st.N(12)], Size: []int{0, 1, 127, 128, 1 << 20, 1<<31 - 1}[st.N(6)]}
			if h.Size == 0 {
				h.Key, h.Value = 0, 0
			}
			e.uvarint(uint64(h.Size))
			if h.Size > 0 {
				e.b = append(e.b, toCompact[h.Key]<<4|toCompact[h.Value])
			}
			it = item{"ReadMapHeader", e.b, func(b *bufio.Reader) (any, error) { return thriftcompact.ReadMapHeader(b) }, h}
		case 6:
			h := thriftwire.SetHeader{Element: wireTypes[st.N(12)], Size: []int{0, 1, 14, 15, 16, 127, 128, 1<<31 - 1}[st.N(8)]}
			var b []byte
			if h.Size < 15 {
				b = []byte{byte(h.Size)<<4 | toCompact[h.Element]}
			} else {
				b = binary.AppendUvarint([]byte{0xf0 | toCompact[h.Element]}, uint64(h.Size))
			}
			it = item{"ReadSetHeader", b, func(b *bufio.Reader) (any, error) { return thriftcompact.ReadSetHeader(b) }, h}
			if st.N(2) == 1 {
				it = item{"ReadListHeader", b, func(b *bufio.Reader) (any, error) { return thriftcompact.ReadListHeader(b) }, thriftwire.ListHeader(h)}
			}
		}
		items = append(items, it)
	}
	var names []string
	for _, it := range items {
		names = append(names, it.what)
	}
	note(s, "%s helpers, buffer %d: %v", name, size, names)
	var ga gate
	s.Go("feed-"+name, func() {
		for i, it := range items {
			p.Write(it.b)
			if len(it.b) > 0 || i == len(items)-1 {
				ga.wait(s, i+1)
			}
		}
	})
	s.Go("taker-"+name, func() {
		b := bufio.NewReaderSize(p, size)
		for i, it := range items {
			v, err := it.read(b)
			if err != nil {
				s.Fail("decode", "%s of % x returned %v", it.what, clip(string(it.b), 12), err)
			}
			if v != it.want {
				s.Fail("decode", "%s of % x returned %.60v, want %.60v", it.what, clip(string(it.b), 12), v, it.want)
			}
			s.Event("item", uint64(i))
			ga.open(s)
		}
	})
}
