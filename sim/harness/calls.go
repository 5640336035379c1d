//go:build go1.25

package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// call is one call of the Reader or Writer interface, or an operation made of them.
type call struct {
	name string
	m    *message // "message"
	t    wtype
	typ  reflect.Type
	i    int64
	b    []byte
	h    thriftwire.MessageHeader
}

func (c call) String() string {
	switch c.name {
	case "message":
		return c.m.String()
	case "Skip":
		return "Skip " + c.t.String()
	case "Unmarshal":
		return "Unmarshal " + typeName(c.typ)
	}
	return c.name
}

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return strings.ReplaceAll(err.Error(), "unable to", "cannot")
}

var readCalls = []string{"ReadBool", "ReadFieldBegin", "ReadStructBegin", "ReadStructEnd", "ReadMessageBegin", "ReadFieldEnd",
	"ReadMapBegin", "ReadSetBegin", "ReadListBegin", "ReadByte", "ReadDouble", "ReadI16", "ReadI32", "ReadI64", "ReadString",
	"ReadBytes", "ReadUUID", "SkipString", "SkipUUID", "Skip", "Unmarshal", "ReadMessageEnd", "ReadMapEnd", "ReadSetEnd", "ReadListEnd"}

func genReadCall(g *gen, st *simrt.Stream) call {
	c := call{name: readCalls[st.N(len(readCalls))]}
	switch c.name {
	case "Skip":
		c.t = wireTypes[st.N(12)]
	case "Unmarshal":
		c.typ = g.types.top()
	}
	return c
}

// read makes the call and renders its result.
func (c call) read(x thriftwire.Reader) (res string, err error) {
	var v any
	switch c.name {
	case "message":
		r := recv(x, c.m)
		err = r.err
		if r.dst.IsValid() {
			v = goText(r.dst)
		} else if r.w != nil {
			v = r.w.key()
		}
		return fmt.Sprintf("%+v %v, %s", r.h, v, errText(err)), err
	case "ReadBool":
		v, err = x.ReadBool()
	case "ReadFieldBegin":
		v, err = x.ReadFieldBegin()
	case "ReadFieldEnd":
		err = x.ReadFieldEnd()
	case "ReadStructBegin":
		v, err = x.ReadStructBegin()
	case "ReadStructEnd":
		err = x.ReadStructEnd()
	case "ReadMessageBegin":
		v, err = x.ReadMessageBegin()
	case "ReadMessageEnd":
		err = x.ReadMessageEnd()
	case "ReadMapBegin":
		v, err = x.ReadMapBegin()
	case "ReadMapEnd":
		err = x.ReadMapEnd()
	case "ReadSetBegin":
		v, err = x.ReadSetBegin()
	case "ReadSetEnd":
		err = x.ReadSetEnd()
	case "ReadListBegin":
		v, err = x.ReadListBegin()
	case "ReadListEnd":
		err = x.ReadListEnd()
	case "ReadByte":
		v, err = x.ReadByte()
	case "ReadDouble":
		var f float64
		f, err = x.ReadDouble()
		v = math.Float64bits(f)
	case "ReadI16":
		v, err = x.ReadI16()
	case "ReadI32":
		v, err = x.ReadI32()
	case "ReadI64":
		v, err = x.ReadI64()
	case "ReadString":
		v, err = x.ReadString()
	case "ReadBytes":
		v, err = x.ReadBytes([]byte("pre"))
	case "ReadUUID":
		var u [16]byte
		err = x.ReadUUID(&u)
		v = u
	case "SkipString":
		err = x.SkipString()
	case "SkipUUID":
		err = x.SkipUUID()
	case "Skip":
		err = thriftwire.Skip(x, c.t)
	case "Unmarshal":
		p := reflect.New(c.typ)
		err = thrift.Unmarshal(x, p.Interface())
		v = goText(p.Elem())
	default:
		panic(c.name)
	}
	return fmt.Sprintf("%v, %s", v, errText(err)), err
}

// goText renders a Go value by content.
func goText(v reflect.Value) string { return toW(v).key() }

var writeCalls = []string{"WriteBool", "WriteFieldBegin", "WriteStructBegin", "WriteStructEnd", "WriteMessageBegin", "WriteFieldEnd",
	"WriteMapBegin", "WriteSetBegin", "WriteListBegin", "WriteByte", "WriteDouble", "WriteI16", "WriteI32", "WriteI64", "WriteString",
	"WriteBytes", "WriteUUID", "WriteMessageEnd", "WriteMapEnd", "WriteSetEnd", "WriteListEnd"}

func genWriteCall(g *gen, st *simrt.Stream) call {
	c := call{name: writeCalls[st.N(len(writeCalls))]}
	if c.name == "WriteFieldBegin" && st.N(2) == 0 {
		c.t = thriftwire.Bool
	} else {
		c.t = wireTypes[st.N(12)]
	}
	c.i = genInt(st)
	switch c.name {
	case "WriteString", "WriteBytes":
		c.b = pattern(st.N(100), st.N(100))
	case "WriteMessageBegin":
		c.h = g.header()
	}
	return c
}

func (c call) write(x thriftwire.Writer) error {
	size := int(uint16(c.i)) % 300
	switch c.name {
	case "message":
		return send(x, c.m)
	case "Flush":
		return x.Flush()
	case "WriteBool":
		return x.WriteBool(c.i&1 == 1)
	case "WriteFieldBegin":
		return x.WriteFieldBegin(thriftwire.FieldHeader{Type: c.t, ID: int16(c.i)})
	case "WriteFieldEnd":
		return x.WriteFieldEnd()
	case "WriteStructBegin":
		return x.WriteStructBegin(thriftwire.StructHeader{Name: "x"})
	case "WriteStructEnd":
		return x.WriteStructEnd()
	case "WriteMessageBegin":
		return x.WriteMessageBegin(c.h)
	case "WriteMessageEnd":
		return x.WriteMessageEnd()
	case "WriteMapBegin":
		return x.WriteMapBegin(thriftwire.MapHeader{Key: c.t, Value: wireTypes[int(uint16(c.i))%12], Size: size})
	case "WriteMapEnd":
		return x.WriteMapEnd()
	case "WriteSetBegin":
		return x.WriteSetBegin(thriftwire.SetHeader{Element: c.t, Size: size})
	case "WriteSetEnd":
		return x.WriteSetEnd()
	case "WriteListBegin":
		return x.WriteListBegin(thriftwire.ListHeader{Element: c.t, Size: size})
	case "WriteListEnd":
		return x.WriteListEnd()
	case "WriteByte":
		return x.WriteByte(byte(c.i))
	case "WriteDouble":
		return x.WriteDouble(math.Float64frombits(uint64(c.i)))
	case "WriteI16":
		return x.WriteI16(int16(c.i))
	case "WriteI32":
		return x.WriteI32(int32(c.i))
	case "WriteI64":
		return x.WriteI64(c.i)
	case "WriteString":
		return x.WriteString(string(c.b))
	case "WriteBytes":
		return x.WriteBytes(c.b)
	case "WriteUUID":
		var u [16]byte
		copy(u[:], pattern(int(uint16(c.i)), 16))
		return x.WriteUUID(&u)
	}
	panic(c.name)
}
