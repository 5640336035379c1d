//go:build go1.25

package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C12", run: runC12, quick: 600000, thorough: 18000000,
		real: []string{"thrift", "encoding/thriftwire (Skip)", "reflect of the Go library"},
		stub: []string{"a protocol implementation that validates the grammar of calls and fails at a chosen one", "scheduler", "sync primitives", "map iteration order"},
		rule: "A run is 1 to 3 tasks that Marshal, Unmarshal or Skip values of shared types (with unknown and retyped fields) through a protocol implementation of their own, first without failure and then with a failure at several of its calls, chosen at random or near the ends; non-trivial if a failure was injected or more than two task switches happened.",
	})
}

// injected is the error a third-party protocol fails with.
type injected struct{ n int }

func (e *injected) Error() string { return fmt.Sprintf("third-party protocol failed at call %d", e.n) }

var errShared = errors.New("third-party protocol failed")

// drawCause is an error for call k to fail with.
func drawCause(st *simrt.Stream, k int) error {
	switch st.N(5) {
	case 2:
		return errShared
	case 3:
		return []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}[st.N(3)]
	case 4: // one that wraps others
		return []error{&opError{"read", &injected{k}}, &opError{"call", io.EOF}, errTLS, fmt.Errorf("call %d: %w", k, io.ErrUnexpectedEOF),
			errors.Join(&injected{k}, io.EOF), &opError{"call", &thrift.SemanticError{Err: errShared}}}[st.N(6)]
	}
	return &injected{k}
}

// faults is the part common to both sides: counting calls and failing at one.
type faults struct {
	s      *simrt.Sim
	what   string
	n      int
	failAt int // call number, from 1; 0 never
	err    error
	failed bool
	op     string // the call that failed
	lax    bool   // what is wrong with the calls is another property's matter
}

// abandoned ends an operation whose calls a lax protocol makes no sense of.
type abandoned struct{}

func (x *faults) grammar(class, format string, args ...any) {
	if x.lax {
		panic(abandoned{})
	}
	x.s.Fail(class, "%s: call %d: %s", x.what, x.n, fmt.Sprintf(format, args...))
}

// step counts a call and returns the error to fail with, if this is the call.
func (x *faults) step(op string) error {
	simrt.Yield()
	x.n++
	if x.failed {
		x.grammar("call-after-error", "%s after call %d had failed", op, x.failAt)
	}
	if x.n == x.failAt {
		x.failed, x.op = true, op
		x.s.Fault("protocol-call", x.n)
		return x.err
	}
	return nil
}

// checkWriter is a Writer that builds a W and insists on the grammar.
type checkWriter struct {
	faults
	stack []*wframe
	root  *W
	want  wtype
}

type wframe struct {
	w     *W
	n     int    // elements written, or 2*entries
	size  int    // announced
	field *WF    // open field
	done  bool   // its value is written
	op    string // for messages
}

func (x *checkWriter) bad(format string, args ...any) {
	x.grammar("grammar", format, args...)
}

// put places a value where one is due.
func (x *checkWriter) put(w *W, op string) {
	if len(x.stack) == 0 {
		if x.root != nil {
			x.bad("%s after the value was complete", op)
		}
		if w.T != x.want {
			x.bad("%s where a %v is due", op, x.want)
		}
		x.root = w
		return
	}
	f := x.stack[len(x.stack)-1]
	due := f.w.VT
	switch f.w.T {
	case thriftwire.Struct:
		if f.field == nil {
			x.bad("%s in a struct outside any field", op)
		}
		if f.done {
			x.bad("%s after the value of field %d", op, f.field.ID)
		}
		if due = f.field.V.T; due == w.T {
			f.field.V = w
			f.done = true
		}
	case thriftwire.Map:
		if f.n >= 2*f.size {
			x.bad("%s after %d entries of a map announced with that many", op, f.size)
		}
		if f.n%2 == 0 {
			due = f.w.KT
			f.w.K = append(f.w.K, w)
		} else {
			f.w.V = append(f.w.V, w)
		}
		f.n++
	default:
		if f.n >= f.size {
			x.bad("%s after %d elements of a %v announced with that many", op, f.size, f.w.T)
		}
		f.w.E = append(f.w.E, w)
		f.n++
	}
	if due != w.T {
		x.bad("%s where a %v was announced", op, due)
	}
}

func (x *checkWriter) begin(w *W, size int, op string) error {
	err := x.step(op)
	if err != nil {
		return err
	}
	if size < 0 {
		x.bad("%s with size %d", op, size)
	}
	if w.T != thriftwire.Struct && (!validType(w.VT) || w.T == thriftwire.Map && !validType(w.KT)) {
		x.bad("%s announces %v, %v", op, w.KT, w.VT)
	}
	x.put(w, op)
	x.stack = append(x.stack, &wframe{w: w, size: size, op: op})
	return nil
}

func (x *checkWriter) end(t wtype, op string) error {
	if err := x.step(op); err != nil {
		return err
	}
	if len(x.stack) == 0 {
		x.bad("%s with nothing open", op)
	}
	f := x.stack[len(x.stack)-1]
	if f.w.T != t {
		x.bad("%s inside %s", op, f.op)
	}
	if f.field != nil {
		x.bad("%s inside field %d", op, f.field.ID)
	}
	want := f.size
	if t == thriftwire.Map {
		want *= 2
	}
	if t != thriftwire.Struct && f.n != want {
		x.bad("%s after %d of %d announced elements", op, f.n, want)
	}
	x.stack = x.stack[:len(x.stack)-1]
	return nil
}

func (x *checkWriter) scalar(w *W, op string) error {
	if err := x.step(op); err != nil {
		return err
	}
	x.put(w, op)
	return nil
}

func (x *checkWriter) WriteMessageBegin(thriftwire.MessageHeader) error {
	x.n++
	x.bad("WriteMessageBegin")
	return nil
}
func (x *checkWriter) WriteMessageEnd() error {
	x.n++
	x.bad("WriteMessageEnd")
	return nil
}
func (x *checkWriter) WriteStructBegin(h thriftwire.StructHeader) error {
	return x.begin(&W{T: thriftwire.Struct, N: h.Name}, 0, "WriteStructBegin")
}
func (x *checkWriter) WriteStructEnd() error { return x.end(thriftwire.Struct, "WriteStructEnd") }
func (x *checkWriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	if err := x.step("WriteFieldBegin"); err != nil {
		return err
	}
	if len(x.stack) == 0 || x.stack[len(x.stack)-1].w.T != thriftwire.Struct {
		x.bad("WriteFieldBegin outside a struct")
	}
	f := x.stack[len(x.stack)-1]
	if f.field != nil {
		x.bad("WriteFieldBegin %d inside field %d", h.ID, f.field.ID)
	}
	if !validType(h.Type) {
		x.bad("WriteFieldBegin announces a %v", h.Type)
	}
	f.w.F = append(f.w.F, WF{h.ID, &W{T: h.Type}})
	f.w.FN = append(f.w.FN, h.Name)
	f.field, f.done = &f.w.F[len(f.w.F)-1], false
	return nil
}
func (x *checkWriter) WriteFieldEnd() error {
	if err := x.step("WriteFieldEnd"); err != nil {
		return err
	}
	if len(x.stack) == 0 {
		x.bad("WriteFieldEnd with nothing open")
	}
	f := x.stack[len(x.stack)-1]
	if f.w.T != thriftwire.Struct || f.field == nil {
		x.bad("WriteFieldEnd outside a field")
	}
	if !f.done {
		x.bad("WriteFieldEnd without a value for field %d", f.field.ID)
	}
	f.field = nil
	return nil
}
func (x *checkWriter) WriteMapBegin(h thriftwire.MapHeader) error {
	return x.begin(&W{T: thriftwire.Map, KT: h.Key, VT: h.Value}, h.Size, "WriteMapBegin")
}
func (x *checkWriter) WriteMapEnd() error { return x.end(thriftwire.Map, "WriteMapEnd") }
func (x *checkWriter) WriteSetBegin(h thriftwire.SetHeader) error {
	return x.begin(&W{T: thriftwire.Set, VT: h.Element}, h.Size, "WriteSetBegin")
}
func (x *checkWriter) WriteSetEnd() error { return x.end(thriftwire.Set, "WriteSetEnd") }
func (x *checkWriter) WriteListBegin(h thriftwire.ListHeader) error {
	return x.begin(&W{T: thriftwire.List, VT: h.Element}, h.Size, "WriteListBegin")
}
func (x *checkWriter) WriteListEnd() error { return x.end(thriftwire.List, "WriteListEnd") }
func (x *checkWriter) WriteBool(b bool) error {
	w := &W{T: thriftwire.Bool}
	if b {
		w.I = 1
	}
	return x.scalar(w, "WriteBool")
}
func (x *checkWriter) WriteByte(b byte) error {
	return x.scalar(&W{T: thriftwire.Byte, I: int64(int8(b))}, "WriteByte")
}
func (x *checkWriter) WriteDouble(d float64) error {
	return x.scalar(&W{T: thriftwire.Double, D: d}, "WriteDouble")
}
func (x *checkWriter) WriteI16(i int16) error {
	return x.scalar(&W{T: thriftwire.I16, I: int64(i)}, "WriteI16")
}
func (x *checkWriter) WriteI32(i int32) error {
	return x.scalar(&W{T: thriftwire.I32, I: int64(i)}, "WriteI32")
}
func (x *checkWriter) WriteI64(i int64) error {
	return x.scalar(&W{T: thriftwire.I64, I: i}, "WriteI64")
}
func (x *checkWriter) WriteString(s string) error {
	return x.scalar(&W{T: thriftwire.String, S: s}, "WriteString")
}
func (x *checkWriter) WriteBytes(b []byte) error {
	return x.scalar(&W{T: thriftwire.String, S: string(b)}, "WriteBytes")
}
func (x *checkWriter) WriteUUID(u *[16]byte) error {
	return x.scalar(&W{T: thriftwire.UUID, U: *u}, "WriteUUID")
}
func (x *checkWriter) Flush() error {
	x.n++
	x.bad("Flush")
	return nil
}
func (x *checkWriter) Reset(io.Writer) { x.n++; x.bad("Reset") }

// token is one call a reader of a value must make.
type token struct {
	op   string
	id   int16
	t    wtype
	k    wtype
	size int
	w    *W
}

func tokens(w *W, out []token) []token {
	switch w.T {
	case thriftwire.Struct:
		out = append(out, token{op: "StructBegin"})
		for _, f := range w.F {
			out = append(out, token{op: "FieldBegin", id: f.ID, t: f.V.T})
			out = tokens(f.V, out)
			out = append(out, token{op: "FieldEnd"})
		}
		return append(out, token{op: "FieldBegin", t: thriftwire.Stop}, token{op: "StructEnd"})
	case thriftwire.Map:
		out = append(out, token{op: "MapBegin", k: w.KT, t: w.VT, size: len(w.K)})
		for i := range w.K {
			out = tokens(w.V[i], tokens(w.K[i], out))
		}
		return append(out, token{op: "MapEnd"})
	case thriftwire.Set:
		out = append(out, token{op: "SetBegin", t: w.VT, size: len(w.E)})
		for _, e := range w.E {
			out = tokens(e, out)
		}
		return append(out, token{op: "SetEnd"})
	case thriftwire.List:
		out = append(out, token{op: "ListBegin", t: w.VT, size: len(w.E)})
		for _, e := range w.E {
			out = tokens(e, out)
		}
		return append(out, token{op: "ListEnd"})
	}
	return append(out, token{op: w.T.String(), w: w})
}

// playReader is a Reader that plays a W and insists on the grammar. When it fails it returns garbage too.
type playReader struct {
	faults
	toks []token
	pos  int
	junk bool
}

func (x *playReader) next(op string, call string) (token, error) {
	if err := x.step(call); err != nil {
		return token{}, err
	}
	if x.pos >= len(x.toks) {
		x.grammar("grammar", "%s after the value was complete", call)
	}
	t := x.toks[x.pos]
	if t.op != op {
		x.grammar("grammar", "%s where the next item is %s", call, t.op)
	}
	x.pos++
	return t, nil
}

func (x *playReader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	x.grammar("grammar", "ReadMessageBegin")
	return
}
func (x *playReader) ReadMessageEnd() error {
	x.grammar("grammar", "ReadMessageEnd")
	return nil
}
func (x *playReader) ReadStructBegin() (thriftwire.StructHeader, error) {
	_, err := x.next("StructBegin", "ReadStructBegin")
	return thriftwire.StructHeader{Name: "Some"}, err
}
func (x *playReader) ReadStructEnd() error {
	_, err := x.next("StructEnd", "ReadStructEnd")
	return err
}
func (x *playReader) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	t, err := x.next("FieldBegin", "ReadFieldBegin")
	if err != nil && x.junk {
		return thriftwire.FieldHeader{ID: 1, Type: thriftwire.I32}, err
	}
	return thriftwire.FieldHeader{Name: "field", ID: t.id, Type: t.t}, err
}
func (x *playReader) ReadFieldEnd() error {
	_, err := x.next("FieldEnd", "ReadFieldEnd")
	return err
}
func (x *playReader) ReadMapBegin() (thriftwire.MapHeader, error) {
	t, err := x.next("MapBegin", "ReadMapBegin")
	if err != nil && x.junk {
		return thriftwire.MapHeader{Key: thriftwire.String, Value: thriftwire.String, Size: 3}, err
	}
	return thriftwire.MapHeader{Key: t.k, Value: t.t, Size: t.size}, err
}
func (x *playReader) ReadMapEnd() error {
	_, err := x.next("MapEnd", "ReadMapEnd")
	return err
}
func (x *playReader) ReadSetBegin() (thriftwire.SetHeader, error) {
	t, err := x.next("SetBegin", "ReadSetBegin")
	if err != nil && x.junk {
		return thriftwire.SetHeader{Element: thriftwire.Bool, Size: 3}, err
	}
	return thriftwire.SetHeader{Element: t.t, Size: t.size}, err
}
func (x *playReader) ReadSetEnd() error {
	_, err := x.next("SetEnd", "ReadSetEnd")
	return err
}
func (x *playReader) ReadListBegin() (thriftwire.ListHeader, error) {
	t, err := x.next("ListBegin", "ReadListBegin")
	if err != nil && x.junk {
		return thriftwire.ListHeader{Element: thriftwire.Bool, Size: 3}, err
	}
	return thriftwire.ListHeader{Element: t.t, Size: t.size}, err
}
func (x *playReader) ReadListEnd() error {
	_, err := x.next("ListEnd", "ReadListEnd")
	return err
}

func (x *playReader) value(t wtype, call string) (*W, error) {
	tok, err := x.next(t.String(), call)
	if err != nil {
		w := &W{T: t}
		if x.junk {
			w = &W{T: t, I: 1, D: 6.5, S: "junk", U: [16]byte{0x99}}
		}
		return w, err
	}
	return tok.w, nil
}

func (x *playReader) ReadBool() (bool, error) {
	w, err := x.value(thriftwire.Bool, "ReadBool")
	return w.I != 0, err
}
func (x *playReader) ReadByte() (byte, error) {
	w, err := x.value(thriftwire.Byte, "ReadByte")
	return byte(w.I), err
}
func (x *playReader) ReadDouble() (float64, error) {
	w, err := x.value(thriftwire.Double, "ReadDouble")
	return w.D, err
}
func (x *playReader) ReadI16() (int16, error) {
	w, err := x.value(thriftwire.I16, "ReadI16")
	return int16(w.I), err
}
func (x *playReader) ReadI32() (int32, error) {
	w, err := x.value(thriftwire.I32, "ReadI32")
	return int32(w.I), err
}
func (x *playReader) ReadI64() (int64, error) {
	w, err := x.value(thriftwire.I64, "ReadI64")
	return w.I, err
}
func (x *playReader) ReadString() (string, error) {
	w, err := x.value(thriftwire.String, "ReadString")
	return w.S, err
}
func (x *playReader) ReadBytes(b []byte) ([]byte, error) {
	w, err := x.value(thriftwire.String, "ReadBytes")
	return append(b, w.S...), err
}
func (x *playReader) ReadUUID(u *[16]byte) error {
	w, err := x.value(thriftwire.UUID, "ReadUUID")
	if err == nil {
		*u = w.U
	}
	return err
}
func (x *playReader) SkipString() error {
	_, err := x.value(thriftwire.String, "SkipString")
	return err
}
func (x *playReader) SkipUUID() error {
	_, err := x.value(thriftwire.UUID, "SkipUUID")
	return err
}
func (x *playReader) Reset(io.Reader) { x.grammar("grammar", "Reset") }

var (
	_ thriftwire.Writer = (*checkWriter)(nil)
	_ thriftwire.Reader = (*playReader)(nil)
)

// protoOp is one operation against the third-party protocol.
type protoOp struct {
	kind  int // 0 Marshal, 1 Unmarshal, 2 Skip, 3 Marshal of something unsupported
	typ   reflect.Type
	v     reflect.Value
	byVal bool
	w     *W
	want  reflect.Value
	prior reflect.Value
	fails bool // a type differs
	toks  []token
}

func (o *protoOp) String() string {
	if o.kind == 2 {
		return "Skip " + o.w.T.String()
	}
	return []string{"Marshal ", "Unmarshal ", "", "Marshal unsupported "}[o.kind] + typeName(o.typ)
}

func genProtoOp(s *simrt.Sim, g *gen, st *simrt.Stream, typ reflect.Type) *protoOp {
	o := &protoOp{kind: st.Pick(12, 16, 8, 3), typ: typ}
	switch o.kind {
	case 0:
		o.v = reflect.New(o.typ).Elem()
		o.v.Set(g.vals.value(o.typ))
		o.w = toW(o.v)
		o.byVal = o.typ.Kind() != reflect.Pointer && st.N(4) == 3
	case 1:
		e := &evolver{s: s, st: st, raw: g.raw, drops: true}
		if st.N(5) == 4 {
			e.stale = 1
		}
		o.w = e.value(toW(g.vals.value(o.typ)), o.typ)
		o.want = reflect.New(o.typ).Elem()
		if st.N(3) == 2 {
			o.prior = reflect.New(o.typ).Elem()
			o.prior.Set(g.vals.value(o.typ))
			o.want = clone(o.prior)
		}
		o.fails = fromW(o.w, o.want) != nil
	case 2:
		o.w = g.rawValue()
	case 3:
		var d diagOp
		badWrap(g, st, &d, badPool[st.N(len(badPool))], st.N(5))
		o.typ, o.v, o.w = d.typ, d.v, &W{T: wireType(d.typ)}
		o.fails = true
	}
	if o.kind == 1 || o.kind == 2 {
		o.toks = tokens(o.w, nil)
	}
	return o
}

// run performs the operation with a failure at call failAt and returns the number of calls made.
func (o *protoOp) run(s *simrt.Sim, name string, failAt int, cause error, junk bool) int {
	f := faults{s: s, what: fmt.Sprintf("%s: %v", name, o), failAt: failAt, err: cause}
	if failAt > 0 {
		f.what += fmt.Sprintf(", failure at call %d", failAt)
	}
	var err error
	var n int
	var failed bool
	switch o.kind {
	case 0, 3:
		x := &checkWriter{faults: f, want: o.w.T}
		arg := o.v.Addr().Interface()
		if o.byVal {
			arg = o.v.Interface()
		}
		err = thrift.Marshal(x, arg)
		n, failed = x.n, x.failed
		if !failed && o.fails {
			if err == nil {
				s.Fail("unsupported", "%s: succeeded", f.what)
			}
			return n
		}
		if err == nil && !failed {
			if len(x.stack) > 0 || x.root == nil {
				s.Fail("grammar", "%s: succeeded with the value incomplete", f.what)
			}
			if d := diffW(x.root, o.w); d != "" {
				s.Fail("mirror", "%s: the calls do not mirror the value: %s", f.what, d)
			}
			if d := checkNames(x.root, o.typ); d != "" {
				s.Fail("mirror", "%s: the calls do not mirror the value: %s", f.what, d)
			}
		}
	case 1:
		x := &playReader{faults: f, toks: o.toks, junk: junk}
		dst := reflect.New(o.typ)
		if o.prior.IsValid() {
			dst.Elem().Set(clone(o.prior))
		}
		err = thrift.Unmarshal(x, dst.Interface())
		n, failed = x.n, x.failed
		if !failed && o.fails {
			if err == nil {
				s.Fail("converted", "%s: a value of another type was accepted", f.what)
			}
			return n
		}
		if err == nil && !failed {
			if x.pos != len(x.toks) {
				s.Fail("grammar", "%s: succeeded after %d of %d items", f.what, x.pos, len(x.toks))
			}
			if d := diff(dst.Elem(), o.want); d != "" {
				s.Fail("mirror", "%s: %s", f.what, d)
			}
		}
	case 2:
		x := &playReader{faults: f, toks: o.toks, junk: junk}
		err = thriftwire.Skip(x, o.w.T)
		n, failed = x.n, x.failed
		if err == nil && !failed && x.pos != len(x.toks) {
			s.Fail("grammar", "%s: succeeded after %d of %d items", f.what, x.pos, len(x.toks))
		}
	}
	if failed {
		if err == nil {
			s.Fail("lost-error", "%s: reported success", f.what)
		}
		if !errors.Is(err, cause) {
			s.Fail("cause", "%s: returned %v, which does not lead to the failure %v", f.what, err, cause)
		}
	} else if err != nil {
		s.Fail("spurious-error", "%s: returned %v although no call failed", f.what, err)
	}
	return n
}

func runC12(s *simrt.Sim) {
	g := newGen(s)
	knobs := s.Src.Stream("knobs")
	if knobs.N(8) < 7 {
		g.tiny()
	}
	st := s.Src.Stream("third-party")
	types := []reflect.Type{g.types.top()}
	if knobs.N(2) == 1 {
		types = append(types, g.types.top())
	}
	n := 1 + knobs.Pick(3, 2, 1)
	for i := range n {
		name := fmt.Sprintf("t%d", i)
		var ops []*protoOp
		for range 1 + knobs.Pick(3, 2, 1) {
			ops = append(ops, genProtoOp(s, g, st, types[knobs.N(len(types))]))
		}
		note(s, "%s: %v", name, ops)
		s.Go(name, func() {
			for _, o := range ops {
				calls := o.run(s, name, 0, nil, false)
				for range 1 + st.N(6) {
					if calls == 0 {
						break
					}
					k := 0
					switch st.Pick(5, 2, 1) {
					case 0:
						k = 1 + st.N(calls)
					case 1:
						k = calls - st.N(min(calls, 5))
					case 2:
						k = 1 + st.N(min(calls, 4))
					}
					cause := drawCause(st, k)
					o.run(s, name, k, cause, st.N(2) == 1)
					s.Event("failed at", uint64(k))
				}
			}
		})
	}
	s.Policy(800 * n)
	s.Run()
}
