//go:build go1.25 && !nosuite

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/testing/thrifttest"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
	"github.com/itstarsun/go-thrift/zzverifsim/simtesting"
)

func init() {
	register(&scenario{
		id: "C19", run: runC19, quick: 40000, thorough: 1200000,
		real: []string{"testing/thrifttest", "thrift", "encoding/thriftbinary", "encoding/thriftcompact", "encoding/thriftwire"},
		stub: []string{"package testing", "a third-party protocol", "the fault in the protocol under test", "scheduler", "map iteration order"},
		rule: "A run is 1 to 3 tasks that each put a protocol (the library's or an independent one) through the conformance suite, without fault or with one permanent fault in its reader or writer; non-trivial if the fault took effect.",
	})
}

// protoFault is what is wrong with a protocol.
type protoFault struct {
	s     *simrt.Sim
	side  string // "w", "r"
	what  string
	pred  int // which values are hit
	fired int
	on    bool
}

var writeFaults = []string{"bool", "double", "i16", "i32", "i64", "string", "bytes", "uuid", "field-id", "message-id", "message-type",
	"message-name", "set-last", "list-last", "map-last", "flush", "field-lost", "string-empty", "uuid-error", "string-cut", "fields-swapped", "set-empty", "list-empty", "map-empty",
	"message-id-lost", "message-type-lost", "message-name-cut", "i16-lost", "i32-lost", "i64-lost", "double-lost",
	"message-name-byte", "message-name-upper", "message-name-lower", "message-name-first", "message-name-last", "message-name-front", "message-name-const",
	"message-id-high", "message-id-negative", "message-type-oneway", "message-type-reply", "flush-error", "message-error", "end-error",
	"double-tiny", "field-id-long", "field-id-nested", "set-long-last", "list-long-last", "map-empty-error", "set-empty-error", "list-empty-error",
	"map-long-error", "set-string-error", "list-string-error"}

var readFaults = []string{"bool", "double", "i16", "i32", "i64", "string", "bytes", "uuid", "field-id", "message-id", "message-type",
	"message-name", "set-last", "list-last", "map-last", "string-empty", "uuid-error", "skip-string", "skip-uuid", "string-cut", "i64-narrow", "i32-narrow", "double-narrow", "skip-long",
	"message-id-lost", "message-type-lost", "message-name-cut", "i16-lost", "i32-lost", "i64-lost", "double-lost", "bool-lost", "i16-sign", "i32-sign", "i64-sign", "bytes-empty",
	"message-name-byte", "message-name-upper", "message-name-lower", "message-name-first", "message-name-last", "message-name-front", "message-name-const",
	"message-id-high", "message-id-negative", "message-type-oneway", "message-type-reply", "message-error", "end-error",
	"double-tiny", "field-id-long", "field-id-nested", "set-long-last", "list-long-last", "map-empty-error", "set-empty-error", "list-empty-error",
	"map-long-error", "set-string-error", "list-string-error"}

func (f *protoFault) hit(side, what string, class int) bool {
	if f == nil || !f.on || f.side != side || f.what != what {
		return false
	}
	if f.pred != 0 && class != 0 && f.pred != class {
		return false
	}
	f.fired++
	f.s.Fault("protocol."+side+"."+what, f.fired)
	return true
}

// header loses a part of a message header.
func (f *protoFault) header(side string, h *thriftwire.MessageHeader) {
	switch {
	case h.ID != 0 && f.hit(side, "message-id-lost", 0):
		h.ID = 0
	case h.Type > 1 && f.hit(side, "message-type-lost", 0):
		h.Type = 1
	case len(h.Name) > 1 && f.hit(side, "message-name-byte", 0):
		b := []byte(h.Name)
		b[len(b)/2] ^= 1
		h.Name = string(b)
	case h.Name != strings.ToUpper(h.Name) && f.hit(side, "message-name-upper", 0):
		h.Name = strings.ToUpper(h.Name)
	case h.Name != strings.ToLower(h.Name) && f.hit(side, "message-name-lower", 0):
		h.Name = strings.ToLower(h.Name)
	case len(h.Name) > 1 && f.hit(side, "message-name-first", 0):
		h.Name = "_" + h.Name[1:]
	case len(h.Name) > 1 && f.hit(side, "message-name-last", 0):
		h.Name = h.Name[:len(h.Name)-1] + "_"
	case len(h.Name) > 1 && f.hit(side, "message-name-front", 0):
		h.Name = "_" + h.Name
	case len(h.Name) > 1 && f.hit(side, "message-name-const", 0):
		h.Name = strings.Repeat("_", len(h.Name))
	case h.ID > 0 && f.hit(side, "message-id-high", 0):
		h.ID |= -1 << 31
	case h.ID > 0 && f.hit(side, "message-id-negative", 0):
		h.ID = -h.ID
	case h.Type == 4 && f.hit(side, "message-type-oneway", 0):
		h.Type = 1
	case (h.Type == 2 || h.Type == 3) && f.hit(side, "message-type-reply", 0):
		h.Type = 5 - h.Type
	case len(h.Name) > 1 && f.hit(side, "message-name-cut", 0):
		h.Name = h.Name[:len(h.Name)-1]
	}
}

var errSpurious = errors.New("third-party protocol: failed")

// spurious reports an error for what succeeded.
func (f *protoFault) spurious(side, what string, err error) error {
	if err == nil && f.hit(side, what, 0) {
		return errSpurious
	}
	return err
}

func intClass(v int64) int {
	if v < 0 {
		return 1
	}
	return 2
}

func strClass(n int) int {
	if n <= 1 {
		return 1
	}
	return 2
}

// faultyWriter is a writer with the fault.
type faultyWriter struct {
	thriftwire.Writer
	f     *protoFault
	drop  []drop
	depth int
}

// drop loses the last element of a container.
type drop struct {
	left int // value calls until the lost element; -1: nothing is lost
	lose int
}

func (x *faultyWriter) Reset(w io.Writer) { x.Writer.Reset(w); x.drop, x.depth = nil, 0 }

// lost reports whether a value call belongs to the lost element. Only containers of scalars lose elements.
func lost(d *[]drop) bool {
	if len(*d) == 0 || (*d)[len(*d)-1].left < 0 {
		return false
	}
	t := &(*d)[len(*d)-1]
	if t.left == 0 {
		return true
	}
	t.left--
	return false
}

func (x *faultyWriter) begin(what string, size int, unit int, types ...thriftwire.Type) int {
	scalar := true
	for _, t := range types {
		switch t {
		case thriftwire.Struct, thriftwire.Map, thriftwire.Set, thriftwire.List:
			scalar = false
		}
	}
	switch {
	case size > 0 && scalar && x.f.hit("w", what+"-last", 0), size > 15 && scalar && x.f.hit("w", what+"-long-last", 0):
		x.drop = append(x.drop, drop{left: (size - 1) * unit})
		return size - 1
	case size > 0 && scalar && x.f.hit("w", what+"-empty", 0):
		x.drop = append(x.drop, drop{left: 0})
		return 0
	}
	x.drop = append(x.drop, drop{left: -1})
	return size
}

func (x *faultyWriter) end() { x.drop = x.drop[:len(x.drop)-1] }

func (x *faultyWriter) WriteMessageBegin(h thriftwire.MessageHeader) error {
	switch {
	case x.f.hit("w", "message-id", 0):
		h.ID ^= 1
	case x.f.hit("w", "message-type", 0):
		h.Type = h.Type%4 + 1
	case x.f.hit("w", "message-name", 0):
		h.Name += "x"
	default:
		x.f.header("w", &h)
	}
	return x.f.spurious("w", "message-error", x.Writer.WriteMessageBegin(h))
}

func (x *faultyWriter) WriteMessageEnd() error {
	return x.f.spurious("w", "end-error", x.Writer.WriteMessageEnd())
}

func (x *faultyWriter) WriteStructBegin(h thriftwire.StructHeader) error {
	x.drop = append(x.drop, drop{left: -1})
	x.depth++
	return x.Writer.WriteStructBegin(h)
}
func (x *faultyWriter) WriteStructEnd() error { x.depth--; x.end(); return x.Writer.WriteStructEnd() }

func (x *faultyWriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	switch {
	case x.f.hit("w", "field-id", 0), h.ID > 15 && x.f.hit("w", "field-id-long", 0), x.depth > 1 && x.f.hit("w", "field-id-nested", 0):
		h.ID += 100
	case h.Type == thriftwire.I32 && x.f.hit("w", "field-lost", 0): // the whole field
		x.drop = append(x.drop, drop{left: 0})
		return nil
	case h.Type == thriftwire.I64 && x.f.hit("w", "fields-swapped", 0):
		h.ID, h.Type = 2, thriftwire.I64
	}
	x.drop = append(x.drop, drop{left: -1})
	return x.Writer.WriteFieldBegin(h)
}

func (x *faultyWriter) WriteFieldEnd() error {
	gone := x.drop[len(x.drop)-1].left == 0
	x.end()
	if gone {
		return nil
	}
	return x.Writer.WriteFieldEnd()
}

func (x *faultyWriter) WriteMapBegin(h thriftwire.MapHeader) error {
	h.Size = x.begin("map", h.Size, 2, h.Key, h.Value)
	if h.Size == 0 {
		return x.f.spurious("w", "map-empty-error", x.Writer.WriteMapBegin(h))
	}
	if h.Size > 15 {
		if err := x.f.spurious("w", "map-long-error", nil); err != nil {
			return err
		}
	}
	return x.Writer.WriteMapBegin(h)
}
func (x *faultyWriter) WriteMapEnd() error { x.end(); return x.Writer.WriteMapEnd() }
func (x *faultyWriter) WriteSetBegin(h thriftwire.SetHeader) error {
	h.Size = x.begin("set", h.Size, 1, h.Element)
	if h.Size == 0 {
		return x.f.spurious("w", "set-empty-error", x.Writer.WriteSetBegin(h))
	}
	if h.Element == thriftwire.String && h.Size > 0 {
		if err := x.f.spurious("w", "set-string-error", nil); err != nil {
			return err
		}
	}
	return x.Writer.WriteSetBegin(h)
}
func (x *faultyWriter) WriteSetEnd() error { x.end(); return x.Writer.WriteSetEnd() }
func (x *faultyWriter) WriteListBegin(h thriftwire.ListHeader) error {
	h.Size = x.begin("list", h.Size, 1, h.Element)
	if h.Size == 0 {
		return x.f.spurious("w", "list-empty-error", x.Writer.WriteListBegin(h))
	}
	if h.Element == thriftwire.String && h.Size > 0 {
		if err := x.f.spurious("w", "list-string-error", nil); err != nil {
			return err
		}
	}
	return x.Writer.WriteListBegin(h)
}
func (x *faultyWriter) WriteListEnd() error { x.end(); return x.Writer.WriteListEnd() }

func (x *faultyWriter) WriteBool(v bool) error {
	if lost(&x.drop) {
		return nil
	}
	class := 1
	if v {
		class = 2
	}
	return x.Writer.WriteBool(v != x.f.hit("w", "bool", class))
}

func (x *faultyWriter) WriteDouble(v float64) error {
	if v != 0 && x.f.hit("w", "double-lost", 0) || v < 1 && x.f.hit("w", "double-tiny", 0) {
		v = 0
	}
	if x.f.hit("w", "double", strClass(int(math.Min(2, v)))) {
		v = -v
	}
	return x.Writer.WriteDouble(v)
}

func (x *faultyWriter) WriteI16(v int16) error {
	if v != 0 && x.f.hit("w", "i16-lost", intClass(int64(v))) {
		v = 0
	}
	if x.f.hit("w", "i16", intClass(int64(v))) {
		v ^= 0x40
	}
	return x.Writer.WriteI16(v)
}

func (x *faultyWriter) WriteI32(v int32) error {
	if lost(&x.drop) {
		return nil
	}
	if v != 0 && x.f.hit("w", "i32-lost", intClass(int64(v))) {
		v = 0
	}
	if x.f.hit("w", "i32", intClass(int64(v))) {
		v ^= 1 << 20
	}
	return x.Writer.WriteI32(v)
}

func (x *faultyWriter) WriteI64(v int64) error {
	if v != 0 && x.f.hit("w", "i64-lost", intClass(v)) {
		v = 0
	}
	if x.f.hit("w", "i64", intClass(v)) {
		v ^= 1 << 50
	}
	return x.Writer.WriteI64(v)
}

func (x *faultyWriter) WriteString(v string) error {
	if lost(&x.drop) {
		return nil
	}
	switch {
	case x.f.hit("w", "string", strClass(len(v))):
		v += "!"
	case v != "" && x.f.hit("w", "string-empty", strClass(len(v))):
		v = ""
	case v != "" && x.f.hit("w", "string-cut", strClass(len(v))):
		v = v[:len(v)-1]
	}
	return x.Writer.WriteString(v)
}

func (x *faultyWriter) WriteBytes(v []byte) error {
	if x.f.hit("w", "bytes", strClass(len(v))) {
		v = append(append([]byte(nil), v...), 0)
	}
	return x.Writer.WriteBytes(v)
}

var errNoUUID = errors.New("third-party protocol: UUID is not supported")

func (x *faultyWriter) WriteUUID(v *[16]byte) error {
	if x.f.hit("w", "uuid-error", 0) {
		return errNoUUID
	}
	c := *v
	if x.f.hit("w", "uuid", 0) {
		c[5] ^= 1
	}
	return x.Writer.WriteUUID(&c)
}

func (x *faultyWriter) Flush() error {
	if x.f.hit("w", "flush", 0) {
		return nil
	}
	return x.f.spurious("w", "flush-error", x.Writer.Flush())
}

// faultyReader is a reader with the fault.
type faultyReader struct {
	thriftwire.Reader
	f     *protoFault
	tail  []func() error // what to read at the end of the container
	depth int
}

func (x *faultyReader) Reset(r io.Reader) { x.Reader.Reset(r); x.tail, x.depth = nil, 0 }

func (x *faultyReader) skip(t thriftwire.Type) error {
	switch t { // not through thriftwire.Skip, which would meet the fault again
	case thriftwire.String:
		_, err := x.Reader.ReadString()
		return err
	default:
		return thriftwire.Skip(x.Reader, t)
	}
}

func (x *faultyReader) begin(what string, size int, types ...thriftwire.Type) int {
	if size > 0 && x.f.hit("r", what+"-last", 0) || size > 15 && x.f.hit("r", what+"-long-last", 0) {
		x.tail = append(x.tail, func() error {
			for _, t := range types {
				if err := x.skip(t); err != nil {
					return err
				}
			}
			return nil
		})
		return size - 1
	}
	x.tail = append(x.tail, nil)
	return size
}

func (x *faultyReader) end() error {
	if len(x.tail) == 0 {
		return errors.New("third-party protocol: no container to end")
	}
	f := x.tail[len(x.tail)-1]
	x.tail = x.tail[:len(x.tail)-1]
	if f != nil {
		return f()
	}
	return nil
}

func (x *faultyReader) ReadMessageBegin() (thriftwire.MessageHeader, error) {
	h, err := x.Reader.ReadMessageBegin()
	if err == nil {
		switch {
		case x.f.hit("r", "message-id", 0):
			h.ID ^= 1
		case x.f.hit("r", "message-type", 0):
			h.Type = h.Type%4 + 1
		case x.f.hit("r", "message-name", 0):
			h.Name += "x"
		default:
			x.f.header("r", &h)
		}
	}
	return h, x.f.spurious("r", "message-error", err)
}

func (x *faultyReader) ReadMessageEnd() error {
	return x.f.spurious("r", "end-error", x.Reader.ReadMessageEnd())
}

func (x *faultyReader) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	h, err := x.Reader.ReadFieldBegin()
	if err == nil && h.Type != thriftwire.Stop && (x.f.hit("r", "field-id", 0) || h.ID > 15 && x.f.hit("r", "field-id-long", 0) ||
		x.depth > 1 && x.f.hit("r", "field-id-nested", 0)) {
		h.ID += 100
	}
	return h, err
}

func (x *faultyReader) ReadStructBegin() (thriftwire.StructHeader, error) {
	x.depth++
	return x.Reader.ReadStructBegin()
}
func (x *faultyReader) ReadStructEnd() error { x.depth--; return x.Reader.ReadStructEnd() }

func (x *faultyReader) ReadMapBegin() (thriftwire.MapHeader, error) {
	h, err := x.Reader.ReadMapBegin()
	if h.Size == 0 {
		err = x.f.spurious("r", "map-empty-error", err)
	}
	if h.Size > 15 {
		err = x.f.spurious("r", "map-long-error", err)
	}
	h.Size = x.begin("map", h.Size, h.Key, h.Value)
	return h, err
}
func (x *faultyReader) ReadMapEnd() error {
	if err := x.end(); err != nil {
		return err
	}
	return x.Reader.ReadMapEnd()
}
func (x *faultyReader) ReadSetBegin() (thriftwire.SetHeader, error) {
	h, err := x.Reader.ReadSetBegin()
	if h.Size == 0 {
		err = x.f.spurious("r", "set-empty-error", err)
	}
	if h.Element == thriftwire.String && h.Size > 0 {
		err = x.f.spurious("r", "set-string-error", err)
	}
	h.Size = x.begin("set", h.Size, h.Element)
	return h, err
}
func (x *faultyReader) ReadSetEnd() error {
	if err := x.end(); err != nil {
		return err
	}
	return x.Reader.ReadSetEnd()
}
func (x *faultyReader) ReadListBegin() (thriftwire.ListHeader, error) {
	h, err := x.Reader.ReadListBegin()
	if h.Size == 0 {
		err = x.f.spurious("r", "list-empty-error", err)
	}
	if h.Element == thriftwire.String && h.Size > 0 {
		err = x.f.spurious("r", "list-string-error", err)
	}
	h.Size = x.begin("list", h.Size, h.Element)
	return h, err
}
func (x *faultyReader) ReadListEnd() error {
	if err := x.end(); err != nil {
		return err
	}
	return x.Reader.ReadListEnd()
}

func (x *faultyReader) ReadBool() (bool, error) {
	v, err := x.Reader.ReadBool()
	class := 1
	if v {
		class = 2
	}
	if v && x.f.hit("r", "bool-lost", 0) {
		v = false
	}
	return v != x.f.hit("r", "bool", class), err
}

func (x *faultyReader) ReadDouble() (float64, error) {
	v, err := x.Reader.ReadDouble()
	switch {
	case x.f.hit("r", "double", strClass(int(math.Min(2, v)))):
		v = -v
	case v != 0 && x.f.hit("r", "double-lost", 0), v < 1 && x.f.hit("r", "double-tiny", 0):
		v = 0
	case v > math.MaxFloat32 && x.f.hit("r", "double-narrow", 0):
		v = float64(float32(v))
	}
	return v, err
}

func (x *faultyReader) ReadI16() (int16, error) {
	v, err := x.Reader.ReadI16()
	if v != 0 && x.f.hit("r", "i16-lost", intClass(int64(v))) {
		v = 0
	}
	if v < 0 && x.f.hit("r", "i16-sign", 0) {
		v = -(v + 1)
	}
	if x.f.hit("r", "i16", intClass(int64(v))) {
		v ^= 0x40
	}
	return v, err
}

func (x *faultyReader) ReadI32() (int32, error) {
	v, err := x.Reader.ReadI32()
	switch {
	case v != 0 && x.f.hit("r", "i32-lost", intClass(int64(v))):
		v = 0
	case v < 0 && x.f.hit("r", "i32-sign", 0):
		v = -(v + 1)
	case x.f.hit("r", "i32", intClass(int64(v))):
		v ^= 1 << 20
	case v != int32(int16(v)) && x.f.hit("r", "i32-narrow", 0):
		v = int32(int16(v))
	}
	return v, err
}

func (x *faultyReader) ReadI64() (int64, error) {
	v, err := x.Reader.ReadI64()
	switch {
	case v != 0 && x.f.hit("r", "i64-lost", intClass(v)):
		v = 0
	case v < 0 && x.f.hit("r", "i64-sign", 0):
		v = -(v + 1)
	case x.f.hit("r", "i64", intClass(v)):
		v ^= 1 << 50
	case v != int64(int32(v)) && x.f.hit("r", "i64-narrow", 0):
		v = int64(int32(v))
	}
	return v, err
}

func (x *faultyReader) ReadString() (string, error) {
	v, err := x.Reader.ReadString()
	switch {
	case x.f.hit("r", "string", strClass(len(v))):
		v += "!"
	case v != "" && x.f.hit("r", "string-empty", strClass(len(v))):
		v = ""
	case v != "" && x.f.hit("r", "string-cut", strClass(len(v))):
		v = v[:len(v)-1]
	}
	return v, err
}

func (x *faultyReader) ReadBytes(buf []byte) ([]byte, error) {
	v, err := x.Reader.ReadBytes(buf)
	if x.f.hit("r", "bytes", strClass(len(v))) {
		v = append(v, 0)
	}
	if len(v) > len(buf) && x.f.hit("r", "bytes-empty", 0) {
		v = buf
	}
	return v, err
}

func (x *faultyReader) ReadUUID(v *[16]byte) error {
	if x.f.hit("r", "uuid-error", 0) {
		return errNoUUID
	}
	err := x.Reader.ReadUUID(v)
	if x.f.hit("r", "uuid", 0) {
		v[5] ^= 1
	}
	return err
}

func (x *faultyReader) SkipString() error {
	if x.f.hit("r", "skip-string", 0) {
		return nil
	}
	if err := x.Reader.SkipString(); err != nil || !x.f.hit("r", "skip-long", 0) {
		return err
	}
	_, err := x.Reader.ReadByte()
	return err
}

func (x *faultyReader) SkipUUID() error {
	if x.f.hit("r", "skip-uuid", 0) {
		return nil
	}
	return x.Reader.SkipUUID()
}

type faultyProtocol struct {
	thriftwire.Protocol
	f *protoFault
}

func (p faultyProtocol) NewReader(r io.Reader) thriftwire.Reader {
	return &faultyReader{Reader: p.Protocol.NewReader(r), f: p.f}
}

func (p faultyProtocol) NewWriter(w io.Writer) thriftwire.Writer {
	return &faultyWriter{Writer: p.Protocol.NewWriter(w), f: p.f}
}

// callProtocol is an independent, correct protocol: it writes every call, including the ends, as a line
// of its own and reads without buffering. lazy is an end call its reader does not consume.
type callProtocol struct {
	s     *simrt.Sim
	lazy  string
	fired *int
	names bool // header names are carried
	skips bool // a reader skips an end of message that was not consumed
}

func (p callProtocol) NewReader(r io.Reader) thriftwire.Reader { return &callReader{p: p, r: r} }
func (p callProtocol) NewWriter(w io.Writer) thriftwire.Writer { return &callWriter{p: p, w: w} }

type callWriter struct {
	p callProtocol
	w io.Writer
	b bytes.Buffer
}

func (x *callWriter) put(op string, args ...any) error {
	simrt.Yield()
	x.b.WriteByte(byte(len(op)))
	x.b.WriteString(op)
	for _, a := range args {
		switch a := a.(type) {
		case int64:
			x.b.Write(binary.BigEndian.AppendUint64(nil, uint64(a)))
		case string:
			x.b.Write(binary.AppendUvarint(nil, uint64(len(a))))
			x.b.WriteString(a)
		case []byte:
			x.b.Write(a)
		}
	}
	return nil
}

func (x *callWriter) WriteMessageBegin(h thriftwire.MessageHeader) error {
	if !x.p.names {
		h.Name = ""
	}
	return x.put("message", h.Name, int64(h.Type), int64(h.ID))
}
func (x *callWriter) WriteMessageEnd() error                           { return x.put("message-end") }
func (x *callWriter) WriteStructBegin(h thriftwire.StructHeader) error { return x.put("struct") }
func (x *callWriter) WriteStructEnd() error {
	if err := x.put("field", int64(0), int64(0)); err != nil {
		return err
	}
	return x.put("struct-end")
}
func (x *callWriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return x.put("field", int64(h.Type), int64(h.ID))
}
func (x *callWriter) WriteFieldEnd() error { return x.put("field-end") }
func (x *callWriter) WriteMapBegin(h thriftwire.MapHeader) error {
	return x.put("map", int64(h.Key), int64(h.Value), int64(h.Size))
}
func (x *callWriter) WriteMapEnd() error { return x.put("map-end") }
func (x *callWriter) WriteSetBegin(h thriftwire.SetHeader) error {
	return x.put("set", int64(h.Element), int64(h.Size))
}
func (x *callWriter) WriteSetEnd() error { return x.put("set-end") }
func (x *callWriter) WriteListBegin(h thriftwire.ListHeader) error {
	return x.put("list", int64(h.Element), int64(h.Size))
}
func (x *callWriter) WriteListEnd() error { return x.put("list-end") }
func (x *callWriter) WriteBool(v bool) error {
	if v {
		return x.put("bool", int64(1))
	}
	return x.put("bool", int64(0))
}
func (x *callWriter) WriteByte(v byte) error      { return x.put("byte", int64(v)) }
func (x *callWriter) WriteDouble(v float64) error { return x.put("double", int64(math.Float64bits(v))) }
func (x *callWriter) WriteI16(v int16) error      { return x.put("i16", int64(v)) }
func (x *callWriter) WriteI32(v int32) error      { return x.put("i32", int64(v)) }
func (x *callWriter) WriteI64(v int64) error      { return x.put("i64", v) }
func (x *callWriter) WriteString(v string) error  { return x.put("string", v) }
func (x *callWriter) WriteBytes(v []byte) error   { return x.put("string", string(v)) }
func (x *callWriter) WriteUUID(v *[16]byte) error { return x.put("uuid", v[:]) }
func (x *callWriter) Reset(w io.Writer)           { x.w = w; x.b.Reset() }
func (x *callWriter) Flush() error {
	_, err := x.w.Write(x.b.Bytes())
	x.b.Reset()
	return err
}

type callReader struct {
	p callProtocol
	r io.Reader
}

func (x *callReader) n(n int) ([]byte, error) {
	if n < 0 || n > 1<<20 {
		return nil, errors.New("third-party protocol: bad length")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(x.r, b)
	return b, err
}

func (x *callReader) op(op string) error {
	simrt.Yield()
	if x.p.lazy == op {
		*x.p.fired++
		x.p.s.Fault("protocol.not-consumed."+op, *x.p.fired)
		return nil
	}
	b, err := x.n(1)
	if err == nil {
		b, err = x.n(int(b[0]))
	}
	if err != nil {
		return err
	}
	if x.p.skips && op == "message" && string(b) == "message-end" {
		return x.op(op)
	}
	if string(b) != op {
		return fmt.Errorf("third-party protocol: %q where %q was expected", b, op)
	}
	return nil
}

func (x *callReader) int(err error) (int64, error) {
	if err != nil {
		return 0, err
	}
	b, err := x.n(8)
	if err != nil {
		return 0, err
	}
	return int64(binary.BigEndian.Uint64(b)), nil
}

func (x *callReader) str(err error) (string, error) {
	if err != nil {
		return "", err
	}
	n := 0
	for s := 0; ; s += 7 {
		b, err := x.n(1)
		if err != nil {
			return "", err
		}
		if n |= int(b[0]&127) << s; b[0] < 128 || s > 28 {
			break
		}
	}
	b, err := x.n(n)
	return string(b), err
}

func (x *callReader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	h.Name, err = x.str(x.op("message"))
	t, err := x.int(err)
	id, err := x.int(err)
	h.Type, h.ID = thriftwire.MessageType(t), int32(id)
	return h, err
}
func (x *callReader) ReadMessageEnd() error { return x.op("message-end") }
func (x *callReader) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	return h, x.op("struct")
}
func (x *callReader) ReadStructEnd() error { return x.op("struct-end") }
func (x *callReader) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	t, err := x.int(x.op("field"))
	id, err := x.int(err)
	h.Type, h.ID = thriftwire.Type(t), int16(id)
	return h, err
}
func (x *callReader) ReadFieldEnd() error { return x.op("field-end") }
func (x *callReader) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	k, err := x.int(x.op("map"))
	v, err := x.int(err)
	n, err := x.int(err)
	return thriftwire.MapHeader{Key: thriftwire.Type(k), Value: thriftwire.Type(v), Size: int(n)}, err
}
func (x *callReader) ReadMapEnd() error { return x.op("map-end") }
func (x *callReader) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	e, err := x.int(x.op("set"))
	n, err := x.int(err)
	return thriftwire.SetHeader{Element: thriftwire.Type(e), Size: int(n)}, err
}
func (x *callReader) ReadSetEnd() error { return x.op("set-end") }
func (x *callReader) ReadListBegin() (h thriftwire.ListHeader, err error) {
	e, err := x.int(x.op("list"))
	n, err := x.int(err)
	return thriftwire.ListHeader{Element: thriftwire.Type(e), Size: int(n)}, err
}
func (x *callReader) ReadListEnd() error { return x.op("list-end") }
func (x *callReader) ReadBool() (bool, error) {
	v, err := x.int(x.op("bool"))
	return v == 1, err
}
func (x *callReader) ReadByte() (byte, error) {
	v, err := x.int(x.op("byte"))
	return byte(v), err
}
func (x *callReader) ReadDouble() (float64, error) {
	v, err := x.int(x.op("double"))
	return math.Float64frombits(uint64(v)), err
}
func (x *callReader) ReadI16() (int16, error) {
	v, err := x.int(x.op("i16"))
	return int16(v), err
}
func (x *callReader) ReadI32() (int32, error) {
	v, err := x.int(x.op("i32"))
	return int32(v), err
}
func (x *callReader) ReadI64() (int64, error)     { return x.int(x.op("i64")) }
func (x *callReader) ReadString() (string, error) { return x.str(x.op("string")) }
func (x *callReader) ReadBytes(buf []byte) ([]byte, error) {
	v, err := x.str(x.op("string"))
	return append(buf, v...), err
}
func (x *callReader) ReadUUID(v *[16]byte) error {
	err := x.op("uuid")
	if err == nil {
		_, err = io.ReadFull(x.r, v[:])
	}
	return err
}
func (x *callReader) SkipString() error { _, err := x.ReadString(); return err }
func (x *callReader) SkipUUID() error   { var u [16]byte; return x.ReadUUID(&u) }
func (x *callReader) Reset(r io.Reader) { x.r = r }

func runC19(s *simrt.Sim) {
	knobs := s.Src.Stream("knobs")
	n := 1 + knobs.Pick(4, 1, 1)
	for i := range n {
		suiteTask(s, fmt.Sprintf("t%d", i), knobs)
	}
	s.Policy(4000 * n)
	s.Run()
}

func suiteTask(s *simrt.Sim, name string, knobs *simrt.Stream) {
	fs := s.Src.Stream("fault")
	var p thriftwire.Protocol
	desc := ""
	lazyFired := 0
	lazy := ""
	switch knobs.Pick(3, 2, 2) {
	case 0:
		f := pickFormat(knobs)
		p, desc = f.protocol(), f.String()
	case 1:
		f := pickFormat(knobs)
		p, desc = thriftwire.JoinProtocol(f.protocol(), f.protocol()), "joined "+f.String()
	case 2:
		if fs.N(3) == 0 {
			lazy = []string{"message-end", "struct-end", "field-end", "map-end", "set-end", "list-end", "struct"}[fs.N(7)]
		}
		skips := lazy == "message-end" && fs.N(2) == 0
		p, desc = callProtocol{s: s, lazy: lazy, fired: &lazyFired, names: knobs.N(2) == 0, skips: skips}, "third-party "+lazy
		if skips {
			desc += " (unless a message follows)"
		}
	}
	opts := thrifttest.ProtocolOptions{UUID: knobs.N(4) > 0}
	f := &protoFault{s: s}
	if lazy == "" && fs.N(8) > 0 {
		f.on = true
		if fs.N(2) == 0 {
			f.side, f.what = "w", writeFaults[fs.N(len(writeFaults))]
		} else {
			f.side, f.what = "r", readFaults[fs.N(len(readFaults))]
		}
		if f.pred = fs.N(3); f.what == "double" { // all doubles of the suite are positive
			f.pred = 0
		}
		if c, ok := p.(callProtocol); ok && !c.names { // the suite cannot see names then
			c.names = true
			p = c
		}
		desc += fmt.Sprintf(" with fault %s %s %d", f.side, f.what, f.pred)
	}
	if knobs.N(4) > 0 || f.on {
		p = faultyProtocol{p, f}
	}
	note(s, "%s %s uuid %v", name, desc, opts.UUID)
	s.Go(name, func() {
		rep := simtesting.RunSuite(func(t *simtesting.T) { thrifttest.TestProtocol(t, p, opts) })
		broken := f.fired+lazyFired > 0
		failed := len(rep.Failed) > 0
		if broken && !failed {
			s.Fail("suite-passed", "%s: the suite passed although the fault took effect %d times (%s)", desc, f.fired+lazyFired, strings.Join(rep.Passed, " "))
		}
		idle := strings.Contains(f.what, "uuid") && !opts.UUID || f.what == "bytes" && f.pred == 2
		if f.on && !broken && !failed && !idle {
			s.Fail("not-exercised", "%s, uuid %v: the suite passed without coming to what is wrong (%s)", desc, opts.UUID, strings.Join(rep.Passed, " "))
		}
		if !broken && failed {
			log := strings.Join(rep.Log, "")
			s.Fail("suite-failed", "%s: the suite failed on a correct protocol: %v\n%s", desc, rep.Failed, clip(log, 2000))
		}
		if len(rep.Passed)+len(rep.Failed) < 2 {
			s.Fail("suite-empty", "%s: the suite ran nothing", desc)
		}
		s.Event("fired", uint64(f.fired+lazyFired))
		s.Event("failed", uint64(len(rep.Failed)))
	})
}
