//go:build go1.25

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C05", run: runC05, quick: 300000, thorough: 9000000, real: realWire, stub: stubNet, cap: 3_000_000_000,
		rule: "A run is one received byte stream (a valid one with damaged bytes, forged sizes and types, spliced or cut parts; nesting repeated up to a million times; or noise) on which 1 to 6 read, Unmarshal and Skip calls are made, each within a bound on steps and allocation proportional to the bytes received so far; non-trivial if the bytes were damaged, forged or nested.",
	})
}

var forged = []uint64{0xffffffff, 0x7fffffff, 0x80000000, 0x80010000, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 9, 1<<63 - 1, 1<<64 - 1, 65536, 100000, 0}

// damage returns b after what bad networks, disks and peers do to it.
func damage(s *simrt.Sim, st *simrt.Stream, b []byte, marks []int, f format) []byte {
	b = append([]byte(nil), b...)
	spot := func() int {
		if len(b) == 0 {
			return 0
		}
		if len(marks) > 0 && st.N(2) == 0 {
			if m := marks[st.N(len(marks))]; m < len(b) {
				return m
			}
		}
		return st.N(len(b))
	}
	for range 1 + st.Pick(5, 3, 2, 1) {
		if len(b) == 0 {
			break
		}
		p := spot()
		switch st.Pick(3, 3, 3, 2, 2, 1, 2, 2) {
		case 0:
			b[p] ^= 1 << st.N(8)
			s.Fault("flip", p)
		case 1:
			b[p] = byte(st.N(256))
			s.Fault("byte", p)
		case 2: // forged size or integer
			v := forged[st.N(len(forged))]
			var enc []byte
			if f == fmtCompact {
				enc = binary.AppendUvarint(nil, v)
			} else {
				enc = binary.BigEndian.AppendUint32(nil, uint32(v))
			}
			p = max(0, p-st.N(5)) // the size is before the mark of the contents
			n := min(len(enc), len(b)-p)
			if st.N(2) == 0 {
				n = min(1+st.N(4), len(b)-p)
			}
			b = append(b[:p:p], append(enc, b[p+n:]...)...)
			s.Fault("forged-size", p)
		case 3: // cut out
			n := 1 + st.N(min(20, len(b)-p))
			b = append(b[:p:p], b[p+n:]...)
			s.Fault("lost-bytes", p)
		case 4: // repeat
			n := 1 + st.N(min(60, len(b)-p))
			b = append(b[:p+n:p+n], b[p:]...)
			s.Fault("repeated-bytes", p)
		case 5: // end
			b = b[:p]
			s.Fault("cut", p)
		case 6: // a valid type where another one was
			b[p] = byte(wireTypes[st.N(12)])
			if f == fmtCompact {
				b[p] = byte(st.N(16))<<4 | byte(st.N(14))
			}
			s.Fault("forged-type", p)
		case 7: // zeroed
			n := 1 + st.N(min(30, len(b)-p))
			clear(b[p : p+n])
			s.Fault("zeroed", p)
		}
	}
	return b
}

// afterNest follows a complete deep value.
const afterNest = 0x1122334455667788

// Recursion through the keys of maps, and through required fields.
type (
	recKey map[*recKey]bool
	recReq struct {
		N *recReq  `thrift:"2,required"`
		L []recReq `thrift:"3,required"`
	}
)

// nest makes deep nesting: levels of containers or of struct fields.
func nest(s *simrt.Sim, st *simrt.Stream, f format) (_ []byte, _ wtype, _ reflect.Type, complete bool) {
	n := []int{300, 3000, 30000, 300000, 1000000}[st.Pick(6, 4, 2, 1, 1)]
	n += st.N(n)
	// What collections claim to hold; with more than one of them, every level claims what never comes.
	claim := []int{1, 2, 14, 100, 1000, 4000}[st.Pick(20, 1, 1, 1, 2, 2)]
	if claim > 1 {
		n = 1 + n%600
	}
	var unit, tail []byte
	var top wtype
	var typ reflect.Type
	compact := f == fmtCompact
	field := func(t wtype, id int) []byte {
		if compact {
			return []byte{byte(id)<<4 | toCompact[t]}
		}
		return []byte{byte(t), 0, byte(id)}
	}
	coll := func(e wtype) []byte {
		if compact && claim < 15 {
			return []byte{byte(claim)<<4 | toCompact[e]}
		}
		if compact {
			return binary.AppendUvarint([]byte{0xf0 | toCompact[e]}, uint64(claim))
		}
		return binary.BigEndian.AppendUint32([]byte{byte(e)}, uint32(claim))
	}
	mapOf := func(v wtype) []byte {
		if compact {
			return append(binary.AppendUvarint(nil, uint64(claim)), 0x80|toCompact[v], 0)
		}
		b := binary.BigEndian.AppendUint32([]byte{byte(thriftwire.String), byte(v)}, uint32(claim))
		return append(b, 0, 0, 0, 0)
	}
	keys := false
	switch k := st.N(14); k {
	case 0:
		unit, top, typ = field(thriftwire.Struct, 2), thriftwire.Struct, typeOf[Node]()
	case 1:
		unit = append(field(thriftwire.List, 3), coll(thriftwire.Struct)...)
		top, typ = thriftwire.Struct, typeOf[Node]()
	case 2:
		unit = append(field(thriftwire.Map, 4), mapOf(thriftwire.Struct)...)
		top, typ = thriftwire.Struct, typeOf[Node]()
	case 3:
		unit, top, typ = coll(thriftwire.List), thriftwire.List, typeOf[RecL]()
	case 4:
		unit, top = coll(thriftwire.Set), thriftwire.Set
	case 5:
		unit, top, typ = mapOf(thriftwire.Map), thriftwire.Map, typeOf[RecM]()
	case 6: // Gen1.L
		unit = append(field(thriftwire.List, 3), coll(thriftwire.Struct)...)
		top, typ = thriftwire.Struct, typeOf[Gen1[string]]()
	case 7: // an unknown field all the way down, below a known one
		unit, top, typ = field(thriftwire.Struct, 9), thriftwire.Struct, typeOf[Leaf]()
	case 8: // below the keys of maps
		keys = true
		if compact {
			unit = append(binary.AppendUvarint(nil, uint64(claim)), toCompact[thriftwire.Map]<<4|toCompact[thriftwire.Bool])
		} else {
			unit = binary.BigEndian.AppendUint32([]byte{byte(thriftwire.Map), byte(thriftwire.Bool)}, uint32(claim))
		}
		top, typ = thriftwire.Map, typeOf[recKey]()
	case 9:
		unit, top, typ = field(thriftwire.Struct, 2), thriftwire.Struct, typeOf[recReq]()
	case 10:
		unit = append(field(thriftwire.List, 3), coll(thriftwire.Struct)...)
		top, typ = thriftwire.Struct, typeOf[recReq]()
	case 11:
		unit, top, typ = coll(thriftwire.List), thriftwire.List, typeOf[RecP]()
	case 12:
		unit, top, typ = append(coll(thriftwire.Set), coll(thriftwire.List)...), thriftwire.List, typeOf[RecS]()
	case 13:
		unit = coll(thriftwire.Map)
		if compact {
			unit = append(binary.AppendUvarint(unit, uint64(claim)), toCompact[thriftwire.I16]<<4|toCompact[thriftwire.List], 0)
		} else {
			unit = append(unit, byte(thriftwire.I16), byte(thriftwire.List))
			unit = append(binary.BigEndian.AppendUint32(unit, uint32(claim)), 0, 0)
		}
		top, typ = thriftwire.List, typeOf[RecA]()
	}
	k := st.N(4)
	if claim > 1 && k == 3 {
		k = 0
	}
	switch k {
	case 1:
		tail = make([]byte, 2*n)
	case 2:
		tail = pattern(st.N(100), 40)
	case 3: // a well-formed value and one more
		switch {
		case top == thriftwire.Struct:
			tail = make([]byte, n+1)
		case compact:
			tail = make([]byte, 1)
		case top == thriftwire.Map:
			tail = make([]byte, 6)
		default:
			tail = make([]byte, 5)
		}
		if keys { // their values
			tail = append(tail, make([]byte, n)...)
		}
		e := encoder{f: f}
		e.value(&W{T: thriftwire.I64, I: afterNest})
		tail = append(tail, e.b...)
		complete = true
	}
	s.Fault("nesting", n)
	return append(bytes.Repeat(unit, n), tail...), top, typ, complete
}

func totalAlloc() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

func runC05(s *simrt.Sim) {
	g := newGen(s)
	g.rawP = 3
	knobs := s.Src.Stream("knobs")
	fs := s.Src.Stream("fault")
	f := pickFormat(knobs)
	var data []byte
	var msgs []*message
	var nestT wtype
	var nestType reflect.Type
	var complete bool
	kind := knobs.Pick(10, 3, 2, 1)
	if kind == 1 && knobs.N(4) > 0 { // nesting is expensive
		kind = 0
	}
	switch kind {
	case 0:
		e := encoder{f: f}
		for range 1 + knobs.N(3) {
			m := g.message()
			msgs = append(msgs, m)
			if !m.bare {
				e.message(m.h)
			}
			e.value(m.w)
		}
		data = damage(s, fs, e.b, e.marks, f)
	case 1:
		data, nestT, nestType, complete = nest(s, fs, f)
	case 2: // noise
		n := fs.N(200)
		data = pattern(1+fs.N(100000), n)
		for i := range data {
			if fs.N(3) == 0 {
				data[i] = byte(fs.N(20))
			}
		}
		s.Fault("noise", n)
	case 3: // a header and a large claim, and then nothing
		e := encoder{f: f}
		if fs.N(2) == 1 {
			e.message(g.header())
		}
		t := []wtype{thriftwire.String, thriftwire.List, thriftwire.Set, thriftwire.Map}[fs.N(4)]
		if f == fmtCompact {
			switch t {
			case thriftwire.String:
				e.uvarint(forged[fs.N(len(forged))])
			case thriftwire.Map:
				e.uvarint(forged[fs.N(len(forged))])
				e.b = append(e.b, byte(1+fs.N(13))<<4|byte(1+fs.N(13)))
			default:
				e.b = append(e.b, 0xf0|byte(1+fs.N(13)))
				e.uvarint(forged[fs.N(len(forged))])
			}
		} else {
			switch t {
			case thriftwire.Map:
				e.b = append(e.b, byte(wireTypes[fs.N(12)]), byte(wireTypes[fs.N(12)]))
			case thriftwire.List, thriftwire.Set:
				e.b = append(e.b, byte(wireTypes[fs.N(12)]))
			}
			e.i32(int32(forged[fs.N(len(forged))]))
		}
		nestT = t
		e.b = append(e.b, pattern(fs.N(50), fs.N(60))...)
		data = e.b
		s.Fault("forged-size", len(data))
	}
	m := drawNetMode(knobs)
	if len(data) > 5000 {
		m.read, m.empties, m.scribble = 0, false, false
	}
	p := newFile(s, "in", m, data)
	p.quiet = len(data) > 5000
	type rop struct {
		kind int
		m    *message
		t    wtype
		typ  reflect.Type
	}
	var ops []rop
	for _, m := range msgs {
		ops = append(ops, rop{kind: 0, m: m})
	}
	if kind == 1 || kind == 3 {
		o := rop{kind: 1, t: nestT, typ: nestType}
		if nestType != nil && fs.N(2) == 1 {
			o.kind = 2
		} else if kind == 3 && fs.N(2) == 1 {
			o.kind = 2
			o.typ = typeFor(g, nestT)
		}
		ops = append(ops, o)
	}
	for range fs.N(4) {
		o := rop{kind: 1 + fs.N(6), t: wireTypes[fs.N(12)]}
		switch {
		case o.kind == 2:
			o.typ = g.types.top()
		case o.kind == 3 && (kind == 1 || len(data) > 100000): // readW recurses itself
			o.kind = 1
		}
		ops = append(ops, o)
	}
	note(s, "%v %d bytes, kind %d, %d calls, first message %v", f, len(data), kind, len(ops), msgs)
	s.Go("reader", func() {
		x := f.protocol().NewReader(p)
		for i, o := range ops {
			before := p.read
			a0 := totalAlloc()
			s.Limit(100_000 + 1000*int64(len(data)))
			var err error
			size := 16
			what := ""
			switch o.kind {
			case 0:
				if o.m.typ != nil {
					size = maxSize(o.m.typ, map[reflect.Type]bool{})
				}
				r := recv(x, o.m)
				err, what = r.err, fmt.Sprintf("receiving %v", o.m)
				size = max(size, 200)
			case 1:
				what = "Skip " + o.t.String()
				err = thriftwire.Skip(x, o.t)
			case 2:
				what = "Unmarshal " + typeName(o.typ)
				size = maxSize(o.typ, map[reflect.Type]bool{})
				err = thrift.Unmarshal(x, reflect.New(o.typ).Interface())
			case 3:
				what = "reading " + o.t.String()
				size = 200
				_, err = readW(x, o.t)
			case 4:
				what = "ReadMessageBegin"
				_, err = x.ReadMessageBegin()
			case 5:
				what = "a read call"
				switch o.t {
				case thriftwire.Struct:
					_, err = x.ReadFieldBegin()
				case thriftwire.Map:
					_, err = x.ReadMapBegin()
				case thriftwire.List:
					_, err = x.ReadListBegin()
				case thriftwire.String:
					var b []byte
					b, err = x.ReadBytes([]byte("prefix"))
					if err == nil && !bytes.HasPrefix(b, []byte("prefix")) {
						s.Fail("read-bytes", "%v: ReadBytes lost the given prefix", f)
					}
				case thriftwire.Set:
					err = x.ReadStructEnd()
				default:
					_, err = readW(x, o.t)
				}
			case 6:
				what = "a helper"
				b := bufio.NewReaderSize(newFile(s, "rest", netMode{}, data), 64)
				n := int(int32(forged[int(o.t)%len(forged)]))
				switch o.t {
				case thriftwire.Struct:
					_, err = thriftwire.ReadUvarint(b)
				case thriftwire.Map:
					_, err = thriftcompact.ReadMapHeader(b)
				case thriftwire.List:
					_, err = thriftcompact.ReadListHeader(b)
				case thriftwire.Set:
					_, err = thriftcompact.ReadSetHeader(b)
				case thriftwire.I64:
					_, err = thriftwire.ReadVarint(b)
				case thriftwire.Bool:
					_, err = thriftwire.Next(b, n)
				case thriftwire.I16:
					_, err = thriftwire.ReadBytes(b, n, nil)
				default:
					_, err = thriftwire.ReadString(b, n)
				}
			}
			used := s.Unlimit()
			alloc := totalAlloc() - a0
			got := len(data) // bytes that may have been looked at
			if limit := uint64(256<<10) + uint64(got)*16*uint64(64+size); alloc > limit {
				s.Fail("memory", "%v: %s allocated %d bytes for %d bytes received (limit %d)", f, what, alloc, got, limit)
			}
			s.Event(what, uint64(used))
			if err != nil {
				s.Event("error", uint64(p.read-before))
			}
			s.Event("op", uint64(i))
			if complete && i == 0 && err == nil { // a value is what was sent, or an error
				if v, err := x.ReadI64(); err != nil || v != afterNest {
					s.Fail("misread", "%v: %s of a deep value returned nil, but what follows reads as %x, %v", f, what, v, err)
				}
				s.Count("nontrivial.deep-value-read")
			}
		}
	})
	s.Run()
}

// typeFor makes a type whose wire type is t.
func typeFor(g *gen, t wtype) reflect.Type {
	switch t {
	case thriftwire.String:
		return []reflect.Type{typeOf[string](), typeOf[[]byte](), typeOf[MyStr](), typeOf[MyBytes]()}[g.st.N(4)]
	case thriftwire.List:
		return reflect.SliceOf(g.types.any(1))
	case thriftwire.Set:
		return []reflect.Type{typeOf[thriftSet[int64]](), typeOf[thriftSet[string]](), typeOf[thriftSet[Leaf]](), typeOf[thriftSet[Empty]]()}[g.st.N(4)]
	case thriftwire.Map:
		return reflect.MapOf(keyPool[g.st.N(len(keyPool))], g.types.any(1))
	}
	return typeOf[Node]()
}

type thriftSet[T any] = thrift.Set[T]
