//go:build go1.25

package main

import (
	"fmt"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// message is one message, or one bare value, on a stream.
type message struct {
	bare  bool
	h     thriftwire.MessageHeader
	typ   reflect.Type  // nil: a raw value, written and read through the Writer and Reader interfaces
	v     reflect.Value // addressable
	want  reflect.Value // what a fresh destination holds after decoding it
	w     *W
	byVal bool
	how   int // how it is read: see recv
}

// How a message is read.
const (
	howDecode = iota // Unmarshal, or readW if it is raw
	howSkip
	howRaw // readW
)

// gen makes the contents of a run.
type gen struct {
	s     *simrt.Sim
	st    *simrt.Stream
	types *typeGen
	vals  *valueGen
	raw   *wGen
	rawP  int // raw messages in 8
	howP  int // messages in 6 not decoded plainly
	bareP int // bare values in 8
}

func newGen(s *simrt.Sim) *gen {
	g := &gen{s: s, st: s.Src.Stream("msg"), rawP: 2, howP: 1, bareP: 1}
	nonce := s.Src.Stream("nonce").U64()
	g.types = &typeGen{st: s.Src.Stream("type"), nonce: nonce}
	g.vals = newValueGen(s.Src.Stream("value"), bufSize(s))
	g.raw = &wGen{st: s.Src.Stream("raw"), buf: bufSize(s)}
	return g
}

// noMaps keeps to types whose encoding is a function of the value.
func (g *gen) noMaps() {
	g.types.noMap = true
	g.vals.mapMax = 1
}

func (g *gen) tiny() {
	g.vals.tiny = true
}

func bufSize(s *simrt.Sim) int {
	if s.BufSize > 0 {
		return s.BufSize
	}
	return 4096
}

func (g *gen) header() thriftwire.MessageHeader {
	h := thriftwire.MessageHeader{Type: thriftwire.MessageType(1 + g.st.N(4))}
	switch g.st.Pick(6, 2, 1, 1, 1) {
	case 0:
		h.Name = []string{"ping", "getUser", "a", "Service:method", "écho✓"}[g.st.N(5)]
	case 1:
		h.Name = string(pattern(3*g.st.N(100), g.st.N(40)))
	case 2:
		h.Name = string(pattern(3*g.st.N(100), []int{127, 128, 200, 255, 256}[g.st.N(5)]))
	case 3:
		h.Name = ""
	case 4:
		h.Name = string(pattern(3*g.st.N(100)+1, max(0, g.vals.bufSize+g.st.Range(-12, 12))))
		if g.vals.tiny {
			h.Name = h.Name[:min(len(h.Name), 20)]
		}
	}
	switch g.st.Pick(5, 3, 2) {
	case 0:
		h.ID = int32(g.st.N(200))
	case 1:
		ids := []int32{-1, -128, 127, 128, 1<<31 - 1, -1 << 31, 1 << 14, 1 << 21, 1 << 28, -2}
		h.ID = ids[g.st.N(len(ids))]
	case 2:
		h.ID = int32(g.st.U64())
	}
	return h
}

func (g *gen) message() *message {
	m := &message{}
	m.bare = g.st.N(8) >= 8-g.bareP
	if !m.bare {
		m.h = g.header()
	}
	if g.st.N(8) >= 8-g.rawP {
		m.w = g.rawValue()
	} else {
		g.typed(m, g.types.top())
	}
	if g.st.N(6) >= 6-g.howP {
		m.how = 1 + g.st.N(2)
	}
	return m
}

func (g *gen) rawValue() *W {
	g.raw.left = []int{150, 40, 800, 4}[g.raw.st.Pick(5, 3, 1, 2)]
	if g.vals.tiny {
		g.raw.left = min(g.raw.left, 40)
	}
	g.raw.huge = 0
	if !g.vals.tiny {
		g.raw.huge = g.raw.hugeness.draw(g.raw.st)
	}
	t := thriftwire.Struct
	if g.raw.st.N(3) == 2 {
		t = g.raw.typ(0)
	}
	if g.raw.deep = 0; !g.vals.tiny && g.raw.st.N(40) == 39 {
		g.raw.deep = deepLevels(g.raw.st)
		return g.raw.nest(t, 0)
	}
	return g.raw.value(t, 0)
}

// resets draws how often a connection is replaced: rarely, very often.
func (g *gen) resets(st *simrt.Stream, few int) int {
	if st.N(60) == 59 {
		g.vals.tiny, g.types.few = true, true
		return []int{8, 12, 20, 40}[st.N(4)]
	}
	return few
}

// many draws how many messages a connection carries: rarely a long sequence of small ones.
func (g *gen) many(st *simrt.Stream, few int) int {
	if st.N(60) == 59 {
		g.vals.tiny, g.types.few = true, true
		return []int{20, 40, 70, 140, 300}[st.Pick(3, 3, 2, 2, 1)]
	}
	return few
}

// tinyMessages makes messages that are sent over and over.
func (g *gen) tinyMessages(n int) (ms []*message) {
	g.vals.tiny, g.types.few = true, true
	for len(ms) < n {
		if m := g.message(); len(m.h.Name) < 40 {
			ms = append(ms, m)
		}
	}
	return ms
}

func (g *gen) typed(m *message, t reflect.Type) {
	m.typ = t
	m.v = reflect.New(t).Elem()
	m.v.Set(g.vals.value(t))
	m.want = expected(m.v)
	m.w = toW(m.v)
	m.byVal = t.Kind() != reflect.Pointer && g.st.N(4) == 3
}

func (m *message) String() string {
	name := "raw " + m.w.T.String()
	if m.typ != nil {
		name = typeName(m.typ)
	}
	if m.bare {
		return "value " + name
	}
	return fmt.Sprintf("message %q id %d type %d, %s", clip(m.h.Name, 20), m.h.ID, m.h.Type, name)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func marshalArg(m *message) any {
	if m.byVal {
		return m.v.Interface()
	}
	return m.v.Addr().Interface()
}

// send writes a message without flushing it.
func send(x thriftwire.Writer, m *message) error {
	if !m.bare {
		if err := x.WriteMessageBegin(m.h); err != nil {
			return err
		}
	}
	var err error
	if m.typ != nil {
		err = thrift.Marshal(x, marshalArg(m))
	} else {
		err = writeW(x, m.w)
	}
	if err != nil {
		return err
	}
	if !m.bare {
		return x.WriteMessageEnd()
	}
	return nil
}

// got is what recv found.
type got struct {
	h    thriftwire.MessageHeader
	dst  reflect.Value
	w    *W
	err  error
	part string // the call that failed
}

// recv reads a message as m says, into a fresh destination.
func recv(x thriftwire.Reader, m *message) (g got) {
	if !m.bare {
		if g.h, g.err = x.ReadMessageBegin(); g.err != nil {
			g.part = "ReadMessageBegin"
			return g
		}
	}
	switch {
	case m.how == howSkip:
		g.err = thriftwire.Skip(x, m.w.T)
		g.part = "Skip"
	case m.how == howRaw || m.typ == nil:
		g.w, g.err = readW(x, m.w.T)
		g.part = "read calls"
	default:
		p := reflect.New(m.typ)
		g.dst = p.Elem()
		g.err = thrift.Unmarshal(x, p.Interface())
		g.part = "Unmarshal"
	}
	if g.err == nil && !m.bare {
		g.err = x.ReadMessageEnd()
		g.part = "ReadMessageEnd"
	}
	return g
}

// same explains how g differs from what m carries, or returns "".
func (m *message) same(g got) string {
	if g.err != nil {
		return fmt.Sprintf("%s returned %v", g.part, g.err)
	}
	if !m.bare && g.h != m.h {
		return fmt.Sprintf("header %+v, want %+v", g.h, m.h)
	}
	if g.dst.IsValid() {
		return diff(g.dst, m.want)
	}
	if g.w != nil {
		return diffW(g.w, m.w)
	}
	return ""
}

func isTyped(m *message) bool { return m.typ != nil && m.how == howDecode }

// note describes the run, for samples.
func note(s *simrt.Sim, format string, args ...any) {
	s.Notes = append(s.Notes, fmt.Sprintf(format, args...))
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
