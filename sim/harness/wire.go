//go:build go1.25

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// The reference implementation of the wire formats, written from the Thrift protocol specifications
// (thrift-binary-protocol.md, thrift-compact-protocol.md). It shares no code with the library.

type format int

const (
	fmtStrict format = iota // Binary, versioned message header
	fmtOld                  // Binary, old message header
	fmtCompact
)

func (f format) String() string { return []string{"binary-strict", "binary-old", "compact"}[f] }

func (f format) protocol() thriftwire.Protocol {
	switch f {
	case fmtStrict:
		return thriftbinary.Protocol
	case fmtOld:
		return thriftbinary.ProtocolNonStrict
	}
	return thriftcompact.Protocol
}

func pickFormat(st *simrt.Stream) format { return format(st.N(3)) }

// encoder writes a W as some conforming peer might. With st nil it takes the first alternative always.
type encoder struct {
	f   format
	b   []byte
	st  *simrt.Stream // choices among equivalent encodings
	cnt map[string]int64
	// Offsets of the first byte of every primitive item, for aimed faults.
	marks []int
}

func (e *encoder) choice(n int, what string) int {
	if e.st == nil {
		return 0
	}
	c := e.st.N(n)
	if c > 0 && e.cnt != nil {
		e.cnt["encoding."+what]++
	}
	return c
}

func (e *encoder) mark() { e.marks = append(e.marks, len(e.b)) }

func (e *encoder) uvarint(x uint64) { e.b = binary.AppendUvarint(e.b, x) }
func (e *encoder) zigzag(x int64)   { e.uvarint(uint64(x)<<1 ^ uint64(x>>63)) }
func (e *encoder) i16(x int16)      { e.b = binary.BigEndian.AppendUint16(e.b, uint16(x)) }
func (e *encoder) i32(x int32)      { e.b = binary.BigEndian.AppendUint32(e.b, uint32(x)) }
func (e *encoder) i64(x int64)      { e.b = binary.BigEndian.AppendUint64(e.b, uint64(x)) }

func (e *encoder) str(s string) {
	if e.f == fmtCompact {
		e.uvarint(uint64(len(s)))
	} else {
		e.i32(int32(len(s)))
	}
	e.mark()
	e.b = append(e.b, s...)
}

func (e *encoder) message(h thriftwire.MessageHeader) {
	e.mark()
	switch e.f {
	case fmtStrict:
		e.i32(int32(uint32(0x80010000) | uint32(h.Type)))
		e.str(h.Name)
		e.i32(h.ID)
	case fmtOld:
		e.str(h.Name)
		e.b = append(e.b, byte(h.Type))
		e.i32(h.ID)
	case fmtCompact:
		e.b = append(e.b, 0x82, byte(h.Type)<<5|1)
		e.uvarint(uint64(uint32(h.ID)))
		e.str(h.Name)
	}
	e.mark()
}

var toCompact = map[wtype]byte{
	thriftwire.Bool: 2, thriftwire.Byte: 3, thriftwire.I16: 4, thriftwire.I32: 5, thriftwire.I64: 6, thriftwire.Double: 7,
	thriftwire.String: 8, thriftwire.List: 9, thriftwire.Set: 10, thriftwire.Map: 11, thriftwire.Struct: 12, thriftwire.UUID: 13,
}

var fromCompact = func() map[byte]wtype {
	m := map[byte]wtype{1: thriftwire.Bool}
	for k, v := range toCompact {
		m[v] = k
	}
	return m
}()

func (e *encoder) elemType(t wtype) byte {
	if t == thriftwire.Bool && e.choice(3, "bool-element-type-1") == 1 {
		return 1
	}
	return toCompact[t]
}

func (e *encoder) value(w *W) {
	e.mark()
	compact := e.f == fmtCompact
	switch w.T {
	case thriftwire.Bool:
		switch {
		case w.I != 0:
			e.b = append(e.b, 1)
		case compact && e.choice(2, "bool-element-false-2") == 1:
			e.b = append(e.b, 2)
		default:
			e.b = append(e.b, 0)
		}
	case thriftwire.Byte:
		e.b = append(e.b, byte(w.I))
	case thriftwire.I16:
		if compact {
			e.zigzag(w.I)
		} else {
			e.i16(int16(w.I))
		}
	case thriftwire.I32:
		if compact {
			e.zigzag(w.I)
		} else {
			e.i32(int32(w.I))
		}
	case thriftwire.I64:
		if compact {
			e.zigzag(w.I)
		} else {
			e.i64(w.I)
		}
	case thriftwire.Double:
		if compact {
			e.b = binary.LittleEndian.AppendUint64(e.b, math.Float64bits(w.D))
		} else {
			e.i64(int64(math.Float64bits(w.D)))
		}
	case thriftwire.String:
		e.str(w.S)
	case thriftwire.UUID:
		e.b = append(e.b, w.U[:]...)
	case thriftwire.Struct:
		fields := w.F
		if len(fields) > 1 && e.choice(3, "field-order") == 1 {
			fields = append([]WF(nil), fields...)
			for i := len(fields) - 1; i > 0; i-- {
				j := i - e.st.N(i+1)
				fields[i], fields[j] = fields[j], fields[i]
			}
		}
		var last int16
		for _, f := range fields {
			e.mark()
			if !compact {
				e.b = append(e.b, byte(f.V.T))
				e.i16(f.ID)
				e.value(f.V)
				continue
			}
			t := toCompact[f.V.T]
			if f.V.T == thriftwire.Bool && f.V.I != 0 {
				t = 1
			}
			d := int(f.ID) - int(last)
			if d > 0 && d <= 15 && e.choice(6, "long-field-header") != 1 {
				e.b = append(e.b, byte(d)<<4|t)
			} else {
				e.b = append(e.b, t)
				e.zigzag(int64(f.ID))
			}
			last = f.ID
			if f.V.T != thriftwire.Bool {
				e.value(f.V)
			}
		}
		e.mark()
		e.b = append(e.b, 0)
	case thriftwire.Map:
		n := len(w.K)
		if compact {
			e.uvarint(uint64(n))
			if n > 0 {
				e.b = append(e.b, e.elemType(w.KT)<<4|e.elemType(w.VT))
			}
		} else {
			e.b = append(e.b, byte(w.KT), byte(w.VT))
			e.i32(int32(n))
		}
		for i := range w.K {
			e.value(w.K[i])
			e.value(w.V[i])
		}
	case thriftwire.Set, thriftwire.List:
		n := len(w.E)
		if compact {
			if n < 15 && e.choice(8, "long-size") != 1 {
				e.b = append(e.b, byte(n)<<4|e.elemType(w.VT))
			} else {
				e.b = append(e.b, 0xf0|e.elemType(w.VT))
				e.uvarint(uint64(n))
			}
		} else {
			e.b = append(e.b, byte(w.VT))
			e.i32(int32(n))
		}
		for _, x := range w.E {
			e.value(x)
		}
	default:
		panic("encode: " + w.T.String())
	}
}

// decoder reads what a conforming peer would, and insists on the letter of the specification.
type decoder struct {
	f format
	b []byte
	p int
}

var errShort = errors.New("reference decoder: input ends early")

type refError string

func (e refError) Error() string { return "reference decoder: " + string(e) }

func (d *decoder) take(n int) []byte {
	if n < 0 || d.p+n > len(d.b) {
		panic(errShort)
	}
	s := d.b[d.p : d.p+n]
	d.p += n
	return s
}

func (d *decoder) u8() byte { return d.take(1)[0] }

func (d *decoder) varint(bits int) uint64 {
	start := d.p
	for i := 0; ; i++ {
		if i == 10 {
			panic(refError("varint too long"))
		}
		if d.u8() < 0x80 {
			break
		}
	}
	if n := d.p - start; n > (bits+6)/7 {
		panic(refError(fmt.Sprintf("%d-byte varint for a %d-bit value", n, bits)))
	}
	x, n := binary.Uvarint(d.b[start:d.p])
	if n <= 0 {
		panic(refError("bad varint"))
	}
	return x
}

func (d *decoder) zigzag(bits int) int64 {
	u := d.varint(bits)
	x := int64(u>>1) ^ -int64(u&1)
	if bits < 64 && (x < -1<<(bits-1) || x >= 1<<(bits-1)) {
		panic(refError(fmt.Sprintf("%d does not fit %d bits", x, bits)))
	}
	return x
}

func (d *decoder) be(n int) int64 {
	var x int64
	for _, c := range d.take(n) {
		x = x<<8 | int64(c)
	}
	switch n {
	case 2:
		x = int64(int16(x))
	case 4:
		x = int64(int32(x))
	}
	return x
}

func (d *decoder) size() int {
	var n int64
	if d.f == fmtCompact {
		n = int64(d.varint(32))
	} else {
		n = d.be(4)
	}
	if n < 0 || n > math.MaxInt32 {
		panic(refError("negative size"))
	}
	return int(n)
}

func (d *decoder) str() string { return string(d.take(d.size())) }

func (d *decoder) catch(err *error) {
	if r := recover(); r != nil {
		e, ok := r.(error)
		if _, isRef := r.(refError); !ok || !isRef && e != errShort {
			panic(r)
		}
		*err = fmt.Errorf("%w at byte %d", e, d.p)
	}
}

func (d *decoder) message() (h thriftwire.MessageHeader, err error) {
	defer d.catch(&err)
	switch d.f {
	case fmtStrict:
		v := uint32(d.be(4))
		if v&0xffff0000 != 0x80010000 {
			panic(refError(fmt.Sprintf("version %x", v)))
		}
		if v&0xff00 != 0 {
			panic(refError(fmt.Sprintf("unused byte set in version %x", v)))
		}
		h.Type = thriftwire.MessageType(v & 0xff)
		h.Name = d.str()
		h.ID = int32(d.be(4))
	case fmtOld:
		h.Name = d.str()
		h.Type = thriftwire.MessageType(d.u8())
		h.ID = int32(d.be(4))
	case fmtCompact:
		if b := d.u8(); b != 0x82 {
			panic(refError(fmt.Sprintf("protocol id %x", b)))
		}
		b := d.u8()
		if b&31 != 1 {
			panic(refError(fmt.Sprintf("version %d", b&31)))
		}
		h.Type = thriftwire.MessageType(b >> 5)
		id := d.varint(32)
		if id > math.MaxUint32 {
			panic(refError(fmt.Sprintf("sequence id %x is longer than 32 bits", id)))
		}
		h.ID = int32(uint32(id))
		h.Name = d.str()
	}
	return h, nil
}

func (d *decoder) wireType(b byte) wtype {
	if d.f == fmtCompact {
		t, ok := fromCompact[b]
		if !ok {
			panic(refError(fmt.Sprintf("compact type %d", b)))
		}
		return t
	}
	t := wtype(b)
	if _, ok := toCompact[t]; !ok {
		panic(refError(fmt.Sprintf("type %d", b)))
	}
	return t
}

func (d *decoder) read(t wtype) (w *W, err error) {
	defer d.catch(&err)
	return d.value(t), nil
}

func (d *decoder) value(t wtype) *W {
	compact := d.f == fmtCompact
	w := &W{T: t}
	switch t {
	case thriftwire.Bool:
		switch b := d.u8(); {
		case b == 1:
			w.I = 1
		case b == 0 || compact && b == 2:
		default:
			panic(refError(fmt.Sprintf("bool %d", b)))
		}
	case thriftwire.Byte:
		w.I = int64(int8(d.u8()))
	case thriftwire.I16:
		if compact {
			w.I = d.zigzag(16)
		} else {
			w.I = d.be(2)
		}
	case thriftwire.I32:
		if compact {
			w.I = d.zigzag(32)
		} else {
			w.I = d.be(4)
		}
	case thriftwire.I64:
		if compact {
			w.I = d.zigzag(64)
		} else {
			w.I = d.be(8)
		}
	case thriftwire.Double:
		if compact {
			w.D = math.Float64frombits(binary.LittleEndian.Uint64(d.take(8)))
		} else {
			w.D = math.Float64frombits(binary.BigEndian.Uint64(d.take(8)))
		}
	case thriftwire.String:
		w.S = d.str()
	case thriftwire.UUID:
		copy(w.U[:], d.take(16))
	case thriftwire.Struct:
		var last int16
		seen := map[int16]bool{}
		for {
			b := d.u8()
			if b == 0 {
				break
			}
			f := WF{}
			if compact {
				f.V = &W{T: d.wireType(b & 15)}
				if delta := b >> 4; delta == 0 {
					f.ID = int16(d.zigzag(16))
				} else {
					f.ID = last + int16(delta)
				}
				last = f.ID
				if f.V.T == thriftwire.Bool {
					if b&15 == 1 {
						f.V.I = 1
					}
				} else {
					f.V = d.value(f.V.T)
				}
			} else {
				t := d.wireType(b)
				f.ID = int16(d.be(2))
				f.V = d.value(t)
			}
			if seen[f.ID] {
				panic(refError(fmt.Sprintf("field %d twice", f.ID)))
			}
			seen[f.ID] = true
			w.F = append(w.F, f)
		}
	case thriftwire.Map:
		var n int
		if compact {
			n = d.size()
			if n > 0 {
				kv := d.u8()
				w.KT, w.VT = d.wireType(kv>>4), d.wireType(kv&15)
			}
		} else {
			k, v := d.u8(), d.u8()
			n = d.size()
			if n > 0 {
				w.KT, w.VT = d.wireType(k), d.wireType(v)
			}
		}
		for range n {
			w.K = append(w.K, d.value(w.KT))
			w.V = append(w.V, d.value(w.VT))
		}
	case thriftwire.Set, thriftwire.List:
		var n int
		b := d.u8()
		if compact {
			n = int(b >> 4)
			b &= 15
			if n == 15 {
				n = d.size()
			}
		} else {
			n = d.size()
		}
		w.VT = d.wireType(b)
		for range n {
			w.E = append(w.E, d.value(w.VT))
		}
	}
	return w
}

// encode is the canonical encoding of a message.
func encode(f format, h *thriftwire.MessageHeader, w *W) []byte {
	e := encoder{f: f}
	if h != nil {
		e.message(*h)
	}
	e.value(w)
	return e.b
}

// writeW writes w with the calls of the Writer interface.
func writeW(x thriftwire.Writer, w *W) error {
	switch w.T {
	case thriftwire.Bool:
		return x.WriteBool(w.I != 0)
	case thriftwire.Byte:
		return x.WriteByte(byte(w.I))
	case thriftwire.I16:
		return x.WriteI16(int16(w.I))
	case thriftwire.I32:
		return x.WriteI32(int32(w.I))
	case thriftwire.I64:
		return x.WriteI64(w.I)
	case thriftwire.Double:
		return x.WriteDouble(w.D)
	case thriftwire.String:
		if len(w.S)%2 == 0 {
			return x.WriteBytes([]byte(w.S))
		}
		return x.WriteString(w.S)
	case thriftwire.UUID:
		u := w.U
		return x.WriteUUID(&u)
	case thriftwire.Struct:
		if err := x.WriteStructBegin(thriftwire.StructHeader{}); err != nil {
			return err
		}
		for _, f := range w.F {
			if err := x.WriteFieldBegin(thriftwire.FieldHeader{Type: f.V.T, ID: f.ID}); err != nil {
				return err
			}
			if err := writeW(x, f.V); err != nil {
				return err
			}
			if err := x.WriteFieldEnd(); err != nil {
				return err
			}
		}
		return x.WriteStructEnd()
	case thriftwire.Map:
		if err := x.WriteMapBegin(thriftwire.MapHeader{Key: w.KT, Value: w.VT, Size: len(w.K)}); err != nil {
			return err
		}
		for i := range w.K {
			if err := writeW(x, w.K[i]); err != nil {
				return err
			}
			if err := writeW(x, w.V[i]); err != nil {
				return err
			}
		}
		return x.WriteMapEnd()
	case thriftwire.Set:
		if err := x.WriteSetBegin(thriftwire.SetHeader{Element: w.VT, Size: len(w.E)}); err != nil {
			return err
		}
		for _, e := range w.E {
			if err := writeW(x, e); err != nil {
				return err
			}
		}
		return x.WriteSetEnd()
	case thriftwire.List:
		if err := x.WriteListBegin(thriftwire.ListHeader{Element: w.VT, Size: len(w.E)}); err != nil {
			return err
		}
		for _, e := range w.E {
			if err := writeW(x, e); err != nil {
				return err
			}
		}
		return x.WriteListEnd()
	}
	return fmt.Errorf("writeW: %v", w.T)
}

// readW reads a value with the calls of the Reader interface.
func readW(x thriftwire.Reader, t wtype) (w *W, err error) {
	w = &W{T: t}
	switch t {
	case thriftwire.Bool:
		var b bool
		b, err = x.ReadBool()
		if b {
			w.I = 1
		}
	case thriftwire.Byte:
		var b byte
		b, err = x.ReadByte()
		w.I = int64(int8(b))
	case thriftwire.I16:
		var v int16
		v, err = x.ReadI16()
		w.I = int64(v)
	case thriftwire.I32:
		var v int32
		v, err = x.ReadI32()
		w.I = int64(v)
	case thriftwire.I64:
		w.I, err = x.ReadI64()
	case thriftwire.Double:
		w.D, err = x.ReadDouble()
	case thriftwire.String:
		w.S, err = x.ReadString()
	case thriftwire.UUID:
		err = x.ReadUUID(&w.U)
	case thriftwire.Struct:
		if _, err = x.ReadStructBegin(); err != nil {
			return w, err
		}
		for {
			h, err := x.ReadFieldBegin()
			if err != nil {
				return w, err
			}
			if h.Type == thriftwire.Stop {
				break
			}
			v, err := readW(x, h.Type)
			w.F = append(w.F, WF{h.ID, v})
			if err != nil {
				return w, err
			}
			if err := x.ReadFieldEnd(); err != nil {
				return w, err
			}
		}
		err = x.ReadStructEnd()
	case thriftwire.Map:
		h, err := x.ReadMapBegin()
		if err != nil {
			return w, err
		}
		w.KT, w.VT = h.Key, h.Value
		for range h.Size {
			k, err := readW(x, h.Key)
			if err != nil {
				return w, err
			}
			v, err := readW(x, h.Value)
			if err != nil {
				return w, err
			}
			w.K = append(w.K, k)
			w.V = append(w.V, v)
		}
		return w, x.ReadMapEnd()
	case thriftwire.Set:
		h, err := x.ReadSetBegin()
		if err != nil {
			return w, err
		}
		w.VT = h.Element
		for range h.Size {
			e, err := readW(x, h.Element)
			if err != nil {
				return w, err
			}
			w.E = append(w.E, e)
		}
		return w, x.ReadSetEnd()
	case thriftwire.List:
		h, err := x.ReadListBegin()
		if err != nil {
			return w, err
		}
		w.VT = h.Element
		for range h.Size {
			e, err := readW(x, h.Element)
			if err != nil {
				return w, err
			}
			w.E = append(w.E, e)
		}
		return w, x.ReadListEnd()
	default:
		return w, thriftwire.InvalidTypeError(t)
	}
	return w, err
}

// genW makes an arbitrary value.
type wGen struct {
	st   *simrt.Stream
	left int
	buf  int
	deep int // levels of nesting still to make along one path
	huge int // as for valueGen
	hugeness
}

// cheap makes the i-th of many values without drawing.
func cheapW(t wtype, i int) *W {
	w := &W{T: t}
	switch t {
	case thriftwire.Bool:
		w.I = int64(i % 3 / 2)
	case thriftwire.Byte:
		w.I = int64(int8(i))
	case thriftwire.I16:
		w.I = int64(int16(i))
	case thriftwire.I32, thriftwire.I64:
		w.I = int64(i)
	case thriftwire.Double:
		w.D = float64(i)
	case thriftwire.String:
		w.S = strconv.Itoa(i)
	case thriftwire.UUID:
		w.U[1], w.U[2], w.U[3] = byte(i), byte(i>>8), byte(i>>16)
	case thriftwire.Struct:
		if i%2 == 1 {
			w.F = []WF{{int16(1 + i%30), cheapW(thriftwire.I32, i)}}
		}
	case thriftwire.Map:
		w.KT, w.VT = thriftwire.I16, thriftwire.Bool
	default:
		w.VT = thriftwire.I64
	}
	return w
}

func (g *wGen) takeHuge(els ...wtype) int {
	vg := valueGen{st: g.st, huge: g.huge}
	var ts []reflect.Type
	for _, t := range els {
		if t == thriftwire.Struct || t == thriftwire.Map || t == thriftwire.List || t == thriftwire.Set {
			ts = append(ts, typeOf[map[int]int]())
		}
	}
	n := vg.takeHuge(ts...)
	g.huge = vg.huge
	return n
}

var wireTypes = []wtype{thriftwire.Bool, thriftwire.Byte, thriftwire.I16, thriftwire.I32, thriftwire.I64, thriftwire.Double,
	thriftwire.String, thriftwire.UUID, thriftwire.Struct, thriftwire.List, thriftwire.Set, thriftwire.Map}

func (g *wGen) typ(depth int) wtype {
	n := len(wireTypes)
	if depth > 3 || g.left <= 0 {
		n = 8
	}
	return wireTypes[g.st.N(n)]
}

// nest makes a value with the rest of the deep path in it.
func (g *wGen) nest(t wtype, depth int) *W {
	w := &W{T: t}
	next := wireTypes[8+g.st.Pick(6, 2, 2, 1)]
	inner := func() *W {
		if g.deep--; g.deep <= 0 {
			return g.value(next, 4)
		}
		return g.nest(next, depth+1)
	}
	switch t {
	case thriftwire.Struct:
		id := []int{1, 1, 3, 15, 16, 17, -4, 300}[g.st.N(8)]
		if g.st.N(3) == 0 {
			w.F = append(w.F, WF{int16(id), g.value(wireTypes[g.st.N(6)], 4)})
			id += 1 + g.st.N(3)
		}
		w.F = append(w.F, WF{int16(id), inner()})
		if g.st.N(2) == 0 {
			id += []int{1, 2, 15, 16}[g.st.N(4)]
			w.F = append(w.F, WF{int16(id), g.value(wireTypes[g.st.N(6)], 4)})
		}
	case thriftwire.Map:
		if g.st.N(4) == 0 {
			w.KT, w.VT = next, wireTypes[g.st.N(6)]
			w.K, w.V = []*W{inner()}, []*W{g.value(w.VT, 4)}
		} else {
			w.KT, w.VT = wireTypes[g.st.N(7)], next
			w.K, w.V = []*W{g.value(w.KT, 4)}, []*W{inner()}
		}
	case thriftwire.Set, thriftwire.List:
		w.VT = next
		w.E = []*W{inner()}
		if g.st.N(3) == 0 {
			e := &W{T: next}
			if next != thriftwire.Struct { // empty
				e.KT, e.VT = thriftwire.I32, thriftwire.Bool
			}
			w.E = append(w.E, e)
		}
	default:
		return g.value(t, depth)
	}
	return w
}

func (g *wGen) value(t wtype, depth int) *W {
	w := &W{T: t}
	g.left--
	switch t {
	case thriftwire.Bool:
		w.I = int64(g.st.N(2))
	case thriftwire.Byte:
		w.I = int64(int8(genInt(g.st)))
	case thriftwire.I16:
		w.I = int64(int16(genInt(g.st)))
	case thriftwire.I32:
		w.I = int64(int32(genInt(g.st)))
	case thriftwire.I64:
		w.I = genInt(g.st)
	case thriftwire.Double:
		w.D = genFloat(g.st)
	case thriftwire.String:
		vg := valueGen{st: g.st, left: max(0, g.left), bufSize: g.buf, bigOK: g.st.N(30) == 29, huge: g.huge}
		w.S = string(vg.bytes())
		g.huge = vg.huge
		g.left -= len(w.S)
	case thriftwire.UUID:
		copy(w.U[:], pattern(g.st.N(1000), 16))
		g.left -= 16
	case thriftwire.Struct:
		id := []int{0, 0, -20, 100, 32740}[g.st.N(5)]
		for range g.st.N(6) {
			id += idGaps[g.st.Pick(8, 3, 2, 2, 1, 1, 1, 1, 1, 1)]
			if id > 32767 || g.left <= 0 {
				break
			}
			w.F = append(w.F, WF{int16(id), g.value(g.typ(depth+1), depth+1)})
		}
	case thriftwire.Map:
		w.KT, w.VT = g.typ(depth+2), g.typ(depth+1)
		vg := valueGen{st: g.st, left: max(0, g.left)}
		seen := map[string]bool{}
		for i := range g.takeHuge(w.KT, w.VT) {
			k := cheapW(w.KT, i)
			if seen[k.key()] {
				continue
			}
			seen[k.key()] = true
			w.K = append(w.K, k)
			w.V = append(w.V, cheapW(w.VT, i+7))
		}
		for range vg.count(4 + depth*4) {
			k := g.value(w.KT, depth+2)
			if seen[k.key()] {
				continue
			}
			seen[k.key()] = true
			w.K = append(w.K, k)
			w.V = append(w.V, g.value(w.VT, depth+1))
		}
		w.sortMap()
	case thriftwire.Set, thriftwire.List:
		w.VT = g.typ(depth + 1)
		for i := range g.takeHuge(w.VT) {
			w.E = append(w.E, cheapW(w.VT, i))
		}
		if len(w.E) > 0 { // sizes as drawn
			return w
		}
		vg := valueGen{st: g.st, left: max(0, g.left)}
		for range vg.count(2 + depth*4) {
			w.E = append(w.E, g.value(w.VT, depth+1))
		}
	}
	return w
}
