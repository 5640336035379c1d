//go:build go1.25

package main

import (
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C08", run: runC08, quick: 200000, thorough: 6000000, real: realWire, stub: stubNet,
		rule: "A run is 1 or 2 streams of 1 to 4 messages from senders with another schema version (fields added, dropped or retyped at any depth; W-level edits or derived Go types marshaled by the library), read by old receivers into fresh or used destinations, possibly relayed through a node of a third version, over any segmentation, possibly cut short; non-trivial if a schema differs, or the network misbehaved.",
	})
}

// evolve edits w, a value of Go type t, as a peer with another schema version would have sent it.
type evolver struct {
	s     *simrt.Sim
	st    *simrt.Stream
	raw   *wGen
	drops bool
	stale int // remaining type changes
	added int
	hit   *W // the value whose type was changed
	zero  *W // a zero value of the declared type at its place
}

func deref(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t
}

// other makes a value of another wire type.
func (e *evolver) other(t wtype) *W {
	e.raw.left = 30
	for {
		if u := wireTypes[e.st.N(len(wireTypes))]; u != t {
			return e.raw.value(u, 1)
		}
	}
}

func (e *evolver) value(w *W, t reflect.Type) *W {
	t = deref(t)
	out := *w
	switch w.T {
	case thriftwire.Struct:
		out.F = nil
		declared := map[int16]bool{}
		types := map[int16]reflect.Type{}
		for _, f := range refFields(t) {
			declared[f.id] = true
			types[f.id] = t.Field(f.index).Type
		}
		for _, f := range w.F {
			if e.drops && e.st.N(5) == 4 {
				e.s.Count("nontrivial.dropped-field")
				continue
			}
			nf := WF{f.ID, nil}
			if e.stale > 0 && e.st.N(4) == 3 {
				e.stale--
				nf.V = e.other(f.V.T)
				e.hit, e.zero = nf.V, &W{T: f.V.T, KT: f.V.KT, VT: f.V.VT}
				e.s.Count("nontrivial.retyped-field")
			} else {
				nf.V = e.value(f.V, types[f.ID])
			}
			out.F = append(out.F, nf)
		}
		// Fields this receiver does not know.
		for range e.st.Pick(4, 3, 2, 1) {
			id := int16(1 + e.st.N(40))
			if len(out.F) > 0 && e.st.N(2) == 0 {
				id = out.F[e.st.N(len(out.F))].ID + int16(e.st.N(5)) - 2
			} else if e.st.N(4) == 3 {
				id = int16(e.st.U64())
			}
			if declared[id] {
				continue
			}
			declared[id] = true
			e.raw.left = []int{60, 10, 300}[e.st.Pick(4, 3, 1)]
			nf := WF{id, e.raw.value(e.raw.typ(0), 0)}
			at := e.st.N(len(out.F) + 1)
			out.F = append(out.F[:at:at], append([]WF{nf}, out.F[at:]...)...)
			e.added++
			e.s.Count("nontrivial.unknown-field")
		}
	case thriftwire.List, thriftwire.Set:
		if t.Kind() != reflect.Slice {
			return &out
		}
		if e.stale > 0 && len(w.E) > 0 && e.st.N(4) == 3 { // an element type that differs
			e.stale--
			x := e.other(w.VT)
			out.E, out.VT = nil, x.T
			for range w.E {
				out.E = append(out.E, x)
			}
			e.hit, e.zero = &out, &W{T: w.T, VT: w.VT, E: []*W{{T: w.VT}}}
			e.s.Count("nontrivial.retyped-element")
			return &out
		}
		out.E = nil
		for _, x := range w.E {
			out.E = append(out.E, e.value(x, t.Elem()))
		}
	case thriftwire.Map:
		out.K, out.V = w.K, nil
		for _, x := range w.V {
			out.V = append(out.V, e.value(x, t.Elem()))
		}
	}
	return &out
}

// replaceW returns w with the node hit replaced.
func replaceW(w, hit, by *W) *W {
	if w == hit {
		return by
	}
	out := *w
	out.F, out.E, out.V = nil, nil, nil
	for _, f := range w.F {
		out.F = append(out.F, WF{f.ID, replaceW(f.V, hit, by)})
	}
	for _, x := range w.E {
		out.E = append(out.E, replaceW(x, hit, by))
	}
	for _, x := range w.V {
		out.V = append(out.V, replaceW(x, hit, by))
	}
	return &out
}

// derive makes another version of a struct type that package reflect made, at any depth.
func derive(g *gen, st *simrt.Stream, t reflect.Type, depth int) reflect.Type {
	if t.Name() != "" || depth > 5 {
		return t
	}
	switch t.Kind() {
	case reflect.Pointer:
		return reflect.PointerTo(derive(g, st, t.Elem(), depth+1))
	case reflect.Slice:
		return reflect.SliceOf(derive(g, st, t.Elem(), depth+1))
	case reflect.Map:
		return reflect.MapOf(t.Key(), derive(g, st, t.Elem(), depth+1))
	case reflect.Struct:
		var fields []reflect.StructField
		used := map[int16]bool{}
		for _, f := range refFields(t) {
			used[f.id] = true
		}
		for i := range t.NumField() {
			f := t.Field(i)
			f.Offset, f.Index = 0, nil
			if f.Name == "Nonce" {
				g.types.n++
				f.Tag = reflect.StructTag(fmt.Sprintf(`thrift:"-" n:"%x.%d"`, g.types.nonce, g.types.n))
				fields = append(fields, f)
				continue
			}
			switch st.Pick(5, 1, 1) {
			case 0:
				f.Type = derive(g, st, f.Type, depth+1)
			case 1:
				continue
			case 2:
				if st.N(6) == 5 {
					f.Type = g.types.any(3)
				}
			}
			fields = append(fields, f)
		}
		for i := range st.Pick(2, 3, 2, 1) {
			id := int16(st.N(60) - 10)
			if st.N(4) == 3 {
				id = int16(st.U64())
			}
			if used[id] {
				continue
			}
			used[id] = true
			nf := reflect.StructField{
				Name: fmt.Sprintf("New%d_%d", depth, i),
				Type: g.types.any(1 + st.N(3)),
				Tag:  reflect.StructTag(fmt.Sprintf(`thrift:"%d"`, id)),
			}
			at := st.N(len(fields) + 1)
			fields = append(fields[:at:at], append([]reflect.StructField{nf}, fields[at:]...)...)
		}
		return reflect.StructOf(fields)
	}
	return t
}

// evolved is a message on its way between schema versions.
type evolved struct {
	bare  bool
	h     thriftwire.MessageHeader
	w     *W            // what is on the wire
	send  reflect.Value // marshaled by the library, if valid
	typ   reflect.Type  // of the receiver
	prior reflect.Value // what its destination holds before, if valid
	want  reflect.Value
	fails bool
	part  reflect.Value // with fails: bound on what the destination may hold
	skip  bool
	relay reflect.Type // the message goes through a node of this version first
}

func (m *evolved) String() string {
	s := typeName(m.typ)
	if m.send.IsValid() {
		s = typeName(m.send.Type()) + " for " + s
	}
	if m.bare {
		return s
	}
	return fmt.Sprintf("message %q %s", clip(m.h.Name, 12), s)
}

func genEvolved(s *simrt.Sim, g *gen, st *simrt.Stream) *evolved {
	m := &evolved{bare: st.N(3) == 2}
	if !m.bare {
		m.h = g.header()
	}
	if st.N(2) == 0 { // the library marshals a derived type
		m.typ = g.types.structOf(0)
		t := derive(g, st, m.typ, 0)
		m.send = reflect.New(t).Elem()
		m.send.Set(g.vals.value(t))
		m.w = toW(m.send)
		if t != m.typ {
			s.Count("nontrivial.derived-type")
		}
	} else {
		for {
			m.typ = g.types.top()
			if k := deref(m.typ).Kind(); k == reflect.Struct || k == reflect.Slice || k == reflect.Map {
				break
			}
		}
		v := g.vals.value(m.typ)
		e := &evolver{s: s, st: st, raw: g.raw, drops: st.N(2) == 1}
		if st.N(4) == 3 {
			e.stale = 1
		}
		m.w = e.value(toW(v), m.typ)
		if e.hit != nil {
			p := reflect.New(m.typ).Elem()
			if err := fromW(replaceW(m.w, e.hit, e.zero), p); err != nil {
				panic(err)
			}
			m.part = p
		}
	}
	m.want = reflect.New(m.typ).Elem()
	if st.N(3) == 2 {
		p := g.vals.value(m.typ)
		m.prior = reflect.New(m.typ).Elem()
		m.prior.Set(p)
		m.want = clone(m.prior)
		m.part = reflect.Value{}
	}
	m.fails = fromW(m.w, m.want) != nil
	m.skip = st.N(6) == 5
	return m
}

func (m *evolved) write(x thriftwire.Writer) error {
	if !m.bare {
		if err := x.WriteMessageBegin(m.h); err != nil {
			return err
		}
	}
	var err error
	if m.send.IsValid() {
		err = thrift.Marshal(x, m.send.Addr().Interface())
	} else {
		err = writeW(x, m.w)
	}
	if err == nil && !m.bare {
		err = x.WriteMessageEnd()
	}
	return err
}

func runC08(s *simrt.Sim) {
	g := newGen(s)
	knobs := s.Src.Stream("knobs")
	st := s.Src.Stream("schema")
	n := 1 + knobs.Pick(4, 1)
	for i := range n {
		name := fmt.Sprintf("c%d", i)
		if knobs.N(4) == 3 {
			relay(s, g, st, name, knobs)
			continue
		}
		f := pickFormat(knobs)
		var msgs []*evolved
		for range 1 + knobs.Pick(3, 3, 2, 1) {
			m := genEvolved(s, g, st)
			msgs = append(msgs, m)
			if m.fails && !m.skip {
				break // the stream is not usable after an error
			}
		}
		note(s, "%s %v: %v", name, f, msgs)
		mode := drawNetMode(knobs)
		byPeer := knobs.N(3) == 2
		cut := -1
		var p *pipe
		fs := s.Src.Stream("fault")
		if byPeer || fs.N(4) == 3 {
			e := encoder{f: f, cnt: s.Counts}
			if byPeer {
				e.st = s.Src.Stream("peer")
			}
			var ends []int
			for _, m := range msgs {
				if !m.bare {
					e.message(m.h)
				}
				e.value(m.w)
				ends = append(ends, len(e.b))
			}
			p = newFile(s, name, mode, e.b)
			if fs.N(3) == 2 {
				cut = fs.N(len(e.b) + 1)
				if fs.N(2) == 0 {
					cut = e.marks[fs.N(len(e.marks))]
				}
				p.cutAt, p.cutErr = cut, []error{io.EOF, errReset, errTLS}[fs.N(3)]
			}
			s.Go("reader-"+name, func() { readEvolved(s, f, p, msgs, ends, cut) })
			continue
		}
		p = newPipe(s, name, mode)
		s.Go("writer-"+name, func() {
			x := f.protocol().NewWriter(p)
			for _, m := range msgs {
				if err := m.write(x); err != nil {
					s.Fail("write-error", "%v: writing %v: %v", f, m, err)
				}
				if err := x.Flush(); err != nil {
					s.Fail("write-error", "%v: Flush: %v", f, err)
				}
			}
			p.CloseWrite()
		})
		s.Go("reader-"+name, func() { readEvolved(s, f, p, msgs, nil, -1) })
	}
	s.Policy(3000 * n)
	s.Run()
}

func readEvolved(s *simrt.Sim, f format, p *pipe, msgs []*evolved, ends []int, cut int) {
	defer p.abandon()
	x := f.protocol().NewReader(p)
	for i, m := range msgs {
		dst := reflect.New(m.typ)
		if m.prior.IsValid() {
			dst.Elem().Set(m.prior)
		}
		var err error
		part := "ReadMessageBegin"
		var h thriftwire.MessageHeader
		if !m.bare {
			h, err = x.ReadMessageBegin()
		}
		if err == nil {
			if m.skip {
				part = "Skip"
				err = thriftwire.Skip(x, m.w.T)
			} else {
				part = "Unmarshal"
				err = thrift.Unmarshal(x, dst.Interface())
			}
		}
		where := fmt.Sprintf("%v: message %d of %d (%v)", f, i+1, len(msgs), m)
		if cut >= 0 && ends[i] > cut {
			if err == nil {
				s.Fail("no-error", "%s: cut at byte %d of %d, but %s succeeds", where, cut, ends[i], part)
			}
			if !m.fails && !isCause(err, p.cutErr) {
				s.Fail("cause", "%s: cut at byte %d by %v, but %s returned %v", where, cut, p.cutErr, part, err)
			}
			s.EventStr("cut", part)
			return
		}
		if m.fails && !m.skip {
			if err == nil {
				s.Fail("converted", "%s: a field or element of another wire type was accepted: got %v from %v", where, toW(dst.Elem()), m.w)
			}
			if m.part.IsValid() {
				if d := partDiff(dst.Elem(), m.part); d != "" {
					s.Fail("converted", "%s: the destination holds something from a value of another wire type: %s", where, d)
				}
			}
			s.Event("mismatch", uint64(i))
			return
		}
		if err == nil && !m.bare {
			part = "ReadMessageEnd"
			err = x.ReadMessageEnd()
		}
		if err != nil {
			s.Fail("evolve", "%s: %s returned %v", where, part, err)
		}
		if !m.bare && h != m.h {
			s.Fail("position", "%s: header %+v, want %+v", where, h, m.h)
		}
		if !m.skip {
			if d := diff(dst.Elem(), m.want); d != "" {
				s.Fail("evolve", "%s: %s", where, d)
			}
		}
		s.Event("message", uint64(i))
	}
	if cut < 0 {
		if _, err := x.ReadMessageBegin(); err != io.EOF {
			s.Fail("position", "%v: after %d messages the end of the stream is reported as %v", f, len(msgs), err)
		}
	}
}

// relay is a message from a new node to an old one that passes it on to a third: what the old one did not
// know is gone, the rest arrives.
func relay(s *simrt.Sim, g *gen, st *simrt.Stream, name string, knobs *simrt.Stream) {
	f1, f2 := pickFormat(knobs), pickFormat(knobs)
	mid := g.types.structOf(0)
	src, dstT := derive(g, st, mid, 0), derive(g, st, mid, 0)
	var in []reflect.Value
	var wantMid, wantEnd []reflect.Value
	for range 1 + knobs.N(3) {
		v := reflect.New(src).Elem()
		v.Set(g.vals.value(src))
		a := reflect.New(mid).Elem()
		if fromW(toW(v), a) != nil {
			continue
		}
		b := reflect.New(dstT).Elem()
		if fromW(toW(a), b) != nil {
			continue
		}
		in = append(in, v)
		wantMid = append(wantMid, a)
		wantEnd = append(wantEnd, b)
	}
	p, q := newPipe(s, name+"-in", drawNetMode(knobs)), newPipe(s, name+"-out", drawNetMode(knobs))
	note(s, "%s relay of %d from %s through %s to %s", name, len(in), typeName(src), typeName(mid), typeName(dstT))
	s.Count("nontrivial.relay")
	step := func(x thriftwire.Writer, v any) {
		if err := thrift.Marshal(x, v); err != nil {
			s.Fail("write-error", "Marshal: %v", err)
		}
		if err := x.Flush(); err != nil {
			s.Fail("write-error", "Flush: %v", err)
		}
	}
	take := func(x thriftwire.Reader, t reflect.Type, want []reflect.Value, who string, i int) reflect.Value {
		d := reflect.New(t)
		if err := thrift.Unmarshal(x, d.Interface()); err != nil {
			s.Fail("evolve", "%s: message %d into %s: %v", who, i, typeName(t), err)
		}
		if df := diff(d.Elem(), want[i]); df != "" {
			s.Fail("evolve", "%s: message %d into %s: %s", who, i, typeName(t), df)
		}
		s.Event(who, uint64(i))
		return d
	}
	s.Go("new-"+name, func() {
		x := f1.protocol().NewWriter(p)
		for _, v := range in {
			step(x, v.Addr().Interface())
		}
		p.CloseWrite()
	})
	s.Go("old-"+name, func() {
		x, y := f1.protocol().NewReader(p), f2.protocol().NewWriter(q)
		for i := range in {
			d := take(x, mid, wantMid, "old node", i)
			// What it passes on is what it has: whether an empty container is nil for it decides whether
			// the struct around it is zero, and hence omitted.
			wantEnd[i] = reflect.New(dstT).Elem()
			if err := fromW(toW(d.Elem()), wantEnd[i]); err != nil {
				panic(err)
			}
			step(y, d.Interface())
		}
		q.CloseWrite()
	})
	s.Go("third-"+name, func() {
		x := f2.protocol().NewReader(q)
		for i := range in {
			take(x, dstT, wantEnd, "third node", i)
		}
		if _, err := x.ReadByte(); err != io.EOF {
			s.Fail("position", "after %d relayed messages the end is reported as %v", len(in), err)
		}
	})
}
