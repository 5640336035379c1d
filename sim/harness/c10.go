//go:build go1.25

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C10", run: runC10, quick: 100000, thorough: 3000000, real: realWire,
		stub: append([]string{"peers using a reference implementation of the wire formats written from the specifications"}, stubNet...),
		rule: "A run is a chain of 2 to 4 nodes, each of whose ends uses the library or the reference implementation, with its own protocol variant and segmentation per link and, for reference writers, free choice among the encodings open to a conforming peer; 1 to 4 messages travel the whole chain and are compared at every hop. Non-trivial as for C01, if a peer used an encoding the library itself does not write, or if headers were appended with the exported functions.",
	})
}

// refReader is a peer's incremental decoder.
type refReader struct {
	f   format
	p   *pipe
	buf []byte
	tmp [300]byte
	eof bool
}

// next calls fn on what has arrived until it does not run short.
func (r *refReader) next(fn func(d *decoder) error) error {
	for {
		d := decoder{f: r.f, b: r.buf}
		err := fn(&d)
		if err == nil {
			r.buf = r.buf[d.p:]
			return nil
		}
		if !errors.Is(err, errShort) {
			return fmt.Errorf("%w (of % x)", err, r.buf[max(0, d.p-8):min(len(r.buf), d.p+8)])
		}
		if r.eof {
			return fmt.Errorf("stream ends inside an item: %w", err)
		}
		// Decoding starts over each time: not after every byte of what is large.
		for more := len(r.buf) + len(r.buf)/1000*100; !r.eof; {
			n, err := r.p.Read(r.tmp[:])
			r.buf = append(r.buf, r.tmp[:n]...)
			if err == io.EOF {
				r.eof = true
			} else if err != nil {
				return err
			}
			if len(r.buf) >= more {
				break
			}
		}
	}
}

// hop is a message as it is between two nodes.
type hop struct {
	w     *W
	loose bool // optional fields that are empty may have been dropped on the way
}

func runC10(s *simrt.Sim) {
	g := newGen(s)
	g.rawP, g.howP, g.bareP = 3, 0, 2
	knobs := s.Src.Stream("knobs")
	nodes := 2 + knobs.Pick(4, 2, 1)
	var msgs []*message
	for range g.many(knobs, 1+knobs.Pick(3, 2, 1, 1)) {
		msgs = append(msgs, g.message())
	}
	var links []*pipe
	var fs []format
	refW, refR := make([]bool, nodes), make([]bool, nodes)
	desc := ""
	for i := range nodes - 1 {
		links = append(links, newPipe(s, fmt.Sprintf("l%d", i), drawNetMode(knobs)))
		fs = append(fs, pickFormat(knobs))
		// One end at least is the library.
		switch knobs.Pick(4, 4, 1) {
		case 0:
			refW[i] = true
		case 1:
			refR[i+1] = true
		}
		desc += fmt.Sprintf("%v(%s to %s) ", fs[i], impl(refW[i]), impl(refR[i+1]))
	}
	note(s, "%s: %v", desc, msgs)
	peer := s.Src.Stream("peer")
	typed := make([]bool, nodes) // this node reads into Go values
	for i := range typed {
		typed[i] = knobs.N(3) > 0
	}
	// What each message is on each link.
	hops := make([][]hop, len(msgs))
	gov := make([][]reflect.Value, len(msgs)) // as a Go value at each node
	for i, m := range msgs {
		cur := hop{m.w, false}
		vals := make([]reflect.Value, nodes)
		if m.typ != nil {
			vals[0] = m.v
		}
		hs := []hop{cur}
		for n := 1; n < nodes; n++ {
			if typed[n] && m.typ != nil && !refR[n] {
				v := reflect.New(m.typ).Elem()
				if err := fromW(cur.w, v); err != nil {
					panic(err)
				}
				vals[n] = v
				cur = hop{toW(v), true}
			}
			hs = append(hs, cur)
		}
		hops[i], gov[i] = hs, vals
	}
	for n := range nodes {
		s.Go(fmt.Sprintf("node%d", n), func() {
			var out func(i int, h thriftwire.MessageHeader, w *W, v reflect.Value)
			var done func()
			if n < nodes-1 {
				f, p := fs[n], links[n]
				done = p.CloseWrite
				if refW[n] {
					e := encoder{f: f, st: peer, cnt: s.Counts}
					out = func(i int, h thriftwire.MessageHeader, w *W, v reflect.Value) {
						if w == nil {
							w = toW(v)
						}
						e.b = nil
						if !msgs[i].bare {
							e.message(h)
						}
						e.value(w)
						p.Write(e.b)
					}
				} else {
					x := f.protocol().NewWriter(p)
					out = func(i int, h thriftwire.MessageHeader, w *W, v reflect.Value) {
						libWrite(s, f, x, msgs[i].bare, h, w, v)
					}
				}
			}
			if n == 0 {
				for i, m := range msgs {
					if m.typ != nil {
						out(i, m.h, nil, m.v)
					} else {
						out(i, m.h, m.w, reflect.Value{})
					}
				}
				done()
				return
			}
			f, p := fs[n-1], links[n-1]
			var r refReader
			var x thriftwire.Reader
			if refR[n] {
				r = refReader{f: f, p: p}
			} else {
				x = f.protocol().NewReader(p)
			}
			for i, m := range msgs {
				want := hops[i][n-1]
				where := fmt.Sprintf("%v from %s to %s, message %d of %d (%v) at node %d", f, impl(refW[n-1]), impl(refR[n]), i+1, len(msgs), m, n)
				var h thriftwire.MessageHeader
				var w *W
				var v reflect.Value
				var err error
				if refR[n] {
					err = r.next(func(d *decoder) error {
						if !m.bare {
							if h, err = d.message(); err != nil {
								return err
							}
						}
						w, err = d.read(m.w.T)
						return err
					})
				} else {
					h, w, v, err = libRead(x, m, gov[i][n].IsValid())
				}
				if err != nil {
					s.Fail("interop", "%s: %v", where, err)
				}
				if !m.bare && h != m.h {
					s.Fail("interop", "%s: header %+v, want %+v", where, h, m.h)
				}
				if w != nil {
					d := ""
					if want.loose {
						// A Go node before this one may have dropped fields that are empty for it.
						a, b := reflect.New(m.typ).Elem(), reflect.New(m.typ).Elem()
						if err := fromW(w, a); err != nil {
							s.Fail("interop", "%s: %v", where, err)
						}
						if err := fromW(want.w, b); err != nil {
							panic(err)
						}
						d = diff(a, b)
					} else {
						d = diffW(w, want.w)
					}
					if d != "" {
						s.Fail("interop", "%s: %s", where, d)
					}
				} else if d := diff(v, gov[i][n]); d != "" {
					s.Fail("interop", "%s: %s", where, d)
				}
				s.Event("hop", uint64(n)<<8|uint64(i))
				if out != nil {
					out(i, h, w, v)
				}
			}
			if refR[n] {
				for !r.eof && len(r.buf) == 0 {
					c, err := p.Read(r.tmp[:])
					r.buf = append(r.buf, r.tmp[:c]...)
					r.eof = err == io.EOF
				}
				if len(r.buf) > 0 {
					s.Fail("interop", "%v: after %d messages % x is left over", f, len(msgs), r.buf[:min(len(r.buf), 16)])
				}
			} else if _, err := x.ReadMessageBegin(); err != io.EOF {
				s.Fail("interop", "%v from %s to %s: after %d messages the end is reported as %v", f, impl(refW[n-1]), impl(refR[n]), len(msgs), err)
			}
			if done != nil {
				done()
			}
		})
	}
	if knobs.N(6) == 5 {
		s.Go("append", func() { appendHeaders(s) })
	}
	s.Policy(3000 * nodes)
	s.Run()
}

// appendHeaders builds a buffer with the exported functions that append headers of the Compact protocol.
func appendHeaders(s *simrt.Sim) {
	st := s.Src.Stream("append")
	for range 1 + st.N(4) {
		want := pattern(st.N(100), st.N(20))
		buf := append(make([]byte, 0, len(want)+st.N(60)), want...)
		if len(want) == 0 && st.N(2) == 0 {
			buf = nil
		}
		var last int16
		for range 1 + st.N(8) {
			el := func() wtype {
				if st.N(12) == 11 {
					return wtype([]byte{0, 1, 5, 7, 9, 17, 18, 200, 255}[st.N(9)]) // none has values
				}
				return wireTypes[st.N(len(wireTypes))]
			}
			size := []int{0, 1, 2, 13, 14, 15, 16, 127, 128, 16383, 16384, 1<<31 - 1}[st.N(12)]
			var got, h []byte
			var err error
			var what any
			bad, limit := false, 0
			code := func(t wtype) byte {
				bad = bad || toCompact[t] == 0
				return toCompact[t]
			}
			switch kind := st.N(4); kind {
			case 0:
				fh := thriftwire.FieldHeader{Type: el(), ID: int16(genInt(st))}
				if st.N(2) == 0 {
					fh.ID = int16(min(int(last)+st.N(18), 32767))
				}
				isTrue := st.N(2) == 1
				c := code(fh.Type)
				if fh.Type == thriftwire.Bool && isTrue {
					c = 1
				}
				switch d := int(fh.ID) - int(last); {
				case d >= 1 && d <= 15:
					h = []byte{byte(d)<<4 | c}
				case d < -65536+16: // the difference overflows, which a reader may or may not undo
					continue
				default:
					h = binary.AppendVarint([]byte{c}, int64(fh.ID))
				}
				what, limit = fh, thriftcompact.MaxFieldHeaderSize
				got, err = thriftcompact.AppendFieldHeader(buf, fh, isTrue, last)
				if !bad {
					last = fh.ID
				}
			case 1:
				mh := thriftwire.MapHeader{Key: el(), Value: el(), Size: size}
				what, limit = mh, thriftcompact.MaxMapHeaderSize
				if h = []byte{0}; size > 0 {
					h = append(binary.AppendUvarint(nil, uint64(size)), code(mh.Key)<<4|code(mh.Value))
				}
				got, err = thriftcompact.AppendMapHeader(buf, mh)
			default:
				sh := thriftwire.SetHeader{Element: el(), Size: size}
				if h = []byte{byte(size)<<4 | code(sh.Element)}; size >= 15 {
					h = binary.AppendUvarint([]byte{0xf0 | code(sh.Element)}, uint64(size))
				}
				if what, limit = sh, thriftcompact.MaxSetHeaderSize; kind == 2 {
					got, err = thriftcompact.AppendSetHeader(buf, sh)
				} else {
					what, limit = thriftwire.ListHeader(sh), thriftcompact.MaxListHeaderSize
					got, err = thriftcompact.AppendListHeader(buf, thriftwire.ListHeader(sh))
				}
			}
			if !bad {
				want = append(want, h...)
			}
			if (err != nil) != bad {
				s.Fail("append", "%T%v appended: error %v", what, what, err)
			}
			if !bytes.Equal(got, want) {
				s.Fail("append", "%T%v appended after % x gives % x, want % x", what, what, buf, got, want)
			}
			if len(h) > limit {
				s.Fail("append", "%T%v takes %d bytes, more than %d", what, what, len(h), limit)
			}
			buf = got
		}
		s.Count("nontrivial.appended")
	}
}

func impl(ref bool) string {
	if ref {
		return "reference"
	}
	return "library"
}

func libWrite(s *simrt.Sim, f format, x thriftwire.Writer, bare bool, h thriftwire.MessageHeader, w *W, v reflect.Value) {
	var err error
	if !bare {
		err = x.WriteMessageBegin(h)
	}
	if err == nil {
		if w != nil {
			err = writeW(x, w)
		} else {
			err = thrift.Marshal(x, v.Addr().Interface())
		}
	}
	if err == nil && !bare {
		err = x.WriteMessageEnd()
	}
	if err == nil {
		err = x.Flush()
	}
	if err != nil {
		s.Fail("write-error", "%v: %v", f, err)
	}
}

func libRead(x thriftwire.Reader, m *message, typed bool) (h thriftwire.MessageHeader, w *W, v reflect.Value, err error) {
	if !m.bare {
		if h, err = x.ReadMessageBegin(); err != nil {
			return
		}
	}
	if typed {
		p := reflect.New(m.typ)
		v = p.Elem()
		err = thrift.Unmarshal(x, p.Interface())
	} else {
		w, err = readW(x, m.w.T)
	}
	if err == nil && !m.bare {
		err = x.ReadMessageEnd()
	}
	return
}
