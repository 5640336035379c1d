//go:build go1.25

package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"unsafe"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C09", run: runC09, quick: 160000, thorough: 4800000, real: realWire, stub: stubNet,
		rule: "A run is 1 to 3 tasks that decode streams through reused readers (Unmarshal, ReadBytes and ReadString, Reset in between) and encode through reused writers, overwriting everything reachable from values already returned or already written, to the full capacity of every slice; after every operation every value still held must be as it was when it was returned. Non-trivial if something was overwritten or more than two task switches happened.",
	})
}

// span is memory a held value reaches.
type span struct {
	lo, hi uintptr
	ro     bool // string data: may be shared, as long as nobody can write it
	owner  string
}

// spans lists the memory reachable from v. Maps are walked, their own memory is not seen.
func spans(v reflect.Value, path string, out *[]span, seen map[uintptr]bool) {
	add := func(lo, size uintptr, ro bool) {
		if size > 0 {
			*out = append(*out, span{lo, lo + size, ro, path})
		}
	}
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		add(uintptr(unsafe.Pointer(unsafe.StringData(s))), uintptr(len(s)), true)
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		if v.Type().Elem().Size() > 0 {
			seen[v.Pointer()] = true
		}
		add(v.Pointer(), v.Type().Elem().Size(), false)
		spans(v.Elem(), path+"*", out, seen)
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		add(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size(), false)
		if simpleElem(v.Type().Elem()) {
			return
		}
		for i := range v.Len() {
			spans(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out, seen)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			spans(it.Key(), path+"[key]", out, seen)
			spans(it.Value(), path+"[]", out, seen)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				spans(v.Field(i), path+"."+v.Type().Field(i).Name, out, seen)
			}
		}
	}
}

func simpleElem(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint16,
		reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return true
	case reflect.Array:
		return simpleElem(t.Elem())
	}
	return false
}

// overlap finds two pieces of memory that must not overlap but do.
func overlap(ss []span) string {
	sort.Slice(ss, func(i, j int) bool { return ss[i].lo < ss[j].lo })
	var maxAll, maxRW *span // furthest-reaching span so far, of either kind and writable
	for i := range ss {
		s := &ss[i]
		if s.ro {
			if maxRW != nil && maxRW.hi > s.lo {
				return fmt.Sprintf("%s and %s share memory", maxRW.owner, s.owner)
			}
		} else if maxAll != nil && maxAll.hi > s.lo {
			return fmt.Sprintf("%s and %s share memory", maxAll.owner, s.owner)
		}
		if maxAll == nil || s.hi > maxAll.hi {
			maxAll = s
		}
		if !s.ro && (maxRW == nil || s.hi > maxRW.hi) {
			maxRW = s
		}
	}
	return ""
}

// scribbleValue overwrites everything that can be written through v, spare capacity included.
func scribbleValue(v reflect.Value, st *simrt.Stream, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int() ^ 0x55)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint() ^ 0x55)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-12345.5)
	case reflect.String:
		v.SetString("overwritten")
	case reflect.Array:
		for i := range v.Len() {
			scribbleValue(v.Index(i), st, depth+1)
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0xFF
			}
			return
		}
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := range full.Len() {
			scribbleValue(full.Index(i), st, depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		keys := v.MapKeys()
		for _, k := range keys {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			scribbleValue(e, st, depth+1)
			v.SetMapIndex(k, e)
		}
		if len(keys) > 1 {
			v.SetMapIndex(keys[0], reflect.Value{})
		}
	case reflect.Pointer:
		if !v.IsNil() {
			scribbleValue(v.Elem(), st, depth+1)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Field(i).CanSet() {
				scribbleValue(v.Field(i), st, depth+1)
			}
		}
	}
}

// held is a value somebody keeps.
type held struct {
	what string
	v    reflect.Value
	snap reflect.Value
	gone bool // overwritten by its holder
}

type holder struct {
	s    *simrt.Sim
	all  []*held
	ids  int
	busy int
}

func (h *holder) keep(what string, v reflect.Value) *held {
	h.ids++
	x := &held{what: fmt.Sprintf("#%d %s", h.ids, what), v: v, snap: clone(v)}
	h.all = append(h.all, x)
	return x
}

func (h *holder) check(after string) {
	for _, x := range h.all {
		if x.gone {
			continue
		}
		if d := diff(x.v, x.snap); d != "" {
			h.s.Fail("changed", "after %s, the value %s has changed: %s", after, x.what, d)
		}
	}
}

// disjoint checks that no two held values, nor two parts of one, share writable memory.
func (h *holder) disjoint() {
	var ss []span
	for _, x := range h.all {
		n := len(ss)
		root := x.v
		if root.CanAddr() && root.Type().Size() > 0 {
			ss = append(ss, span{root.Addr().Pointer(), root.Addr().Pointer() + root.Type().Size(), false, "itself"})
		}
		spans(root, "", &ss, map[uintptr]bool{})
		for i := n; i < len(ss); i++ {
			ss[i].owner = x.what + " " + ss[i].owner
		}
	}
	if d := overlap(ss); d != "" {
		h.s.Fail("aliased", "%s", d)
	}
}

func (h *holder) overwrite(st *simrt.Stream) string {
	if len(h.all) == 0 {
		return ""
	}
	x := h.all[st.N(len(h.all))]
	if x.gone {
		return ""
	}
	x.gone = true
	scribbleValue(x.v, st, 0)
	h.s.Count("nontrivial.overwrite")
	return "overwriting " + x.what
}

func runC09(s *simrt.Sim) {
	g := newGen(s)
	g.rawP = 1
	g.vals.tiny = s.Src.Stream("knobs").N(2) == 1
	knobs := s.Src.Stream("knobs")
	h := &holder{s: s}
	n := 1 + knobs.Pick(4, 3, 1)
	for i := range n {
		switch knobs.Pick(3, 2) {
		case 0:
			aliasReader(s, g, h, fmt.Sprintf("r%d", i), knobs)
		case 1:
			aliasWriter(s, g, h, fmt.Sprintf("w%d", i), knobs)
		}
	}
	s.Policy(3000 * n)
	s.Run()
	h.check("everything")
	h.disjoint()
}

func aliasReader(s *simrt.Sim, g *gen, h *holder, name string, knobs *simrt.Stream) {
	f := pickFormat(knobs)
	st := s.Src.Stream("alias")
	type part struct {
		p    *pipe
		msgs []*message
	}
	var parts []part
	for i := range 1 + knobs.Pick(2, 2, 1) {
		var pt part
		e := encoder{f: f}
		for range g.many(knobs, 1+knobs.N(4)) {
			m := g.message()
			if m.typ == nil { // a string read by hand
				m.bare = true
				m.w = &W{T: thriftwire.String, S: string(g.vals.bytes())}
			}
			if m.how != howDecode && m.typ != nil {
				m.how = howSkip
			}
			pt.msgs = append(pt.msgs, m)
			if !m.bare {
				e.message(m.h)
			}
			e.value(m.w)
		}
		mode := drawNetMode(knobs)
		pt.p = newFile(s, fmt.Sprintf("%s-%d", name, i), mode, e.b)
		if st.N(5) == 4 {
			pt.p.cutAt, pt.p.cutErr = st.N(len(e.b)+1), errReset
		}
		parts = append(parts, pt)
	}
	note(s, "%s %v: %d streams", name, f, len(parts))
	s.Go(name, func() {
		var x thriftwire.Reader
		for i, pt := range parts {
			if i == 0 {
				x = f.protocol().NewReader(pt.p)
			} else {
				x.Reset(pt.p)
			}
			h.check("Reset")
			for _, m := range pt.msgs {
				if !aliasRead(s, h, x, m, st, f) {
					break
				}
				if st.N(3) == 0 {
					if what := h.overwrite(st); what != "" {
						h.check(what)
					}
				}
				s.Event("step", uint64(h.ids))
			}
		}
		h.disjoint()
	})
}

func aliasRead(s *simrt.Sim, h *holder, x thriftwire.Reader, m *message, st *simrt.Stream, f format) bool {
	if m.typ != nil {
		r := recv(x, m)
		if r.dst.IsValid() && (r.err == nil || st.N(2) == 0) {
			h.keep(m.String(), r.dst)
		}
		if r.err == nil {
			if d := m.same(r); d != "" {
				s.Fail("later-result", "%v: %v: %s", f, m, d)
			}
			if !m.bare {
				v := reflect.New(typeOf[string]()).Elem()
				v.SetString(r.h.Name)
				h.keep("message name", v)
			}
		}
		h.check("reading " + m.String())
		return r.err == nil
	}
	switch st.N(4) {
	case 0:
		str, err := x.ReadString()
		if err != nil {
			return false
		}
		if str != m.w.S {
			s.Fail("later-result", "%v: ReadString returned %s, want %s", f, brief(str), brief(m.w.S))
		}
		v := reflect.New(typeOf[string]()).Elem()
		v.SetString(str)
		h.keep("string", v)
	case 1:
		b, err := x.ReadBytes(nil)
		if err != nil {
			return false
		}
		keepBytes(s, h, f, b, "", m.w.S)
	case 2: // appended to a slice with spare capacity
		pre := string(pattern(7, st.N(12)))
		buf := append(make([]byte, 0, len(pre)+st.N(64)), pre...)
		b, err := x.ReadBytes(buf)
		if string(buf) != pre {
			s.Fail("prefix-changed", "%v: ReadBytes changed the bytes it was to append to", f)
		}
		if err != nil {
			return false
		}
		keepBytes(s, h, f, b, pre, m.w.S)
	case 3:
		if err := x.SkipString(); err != nil {
			return false
		}
	}
	h.check("reading a string")
	return true
}

func keepBytes(s *simrt.Sim, h *holder, f format, b []byte, pre, want string) {
	if string(b) != pre+want {
		s.Fail("later-result", "%v: ReadBytes onto %q returned %s, want %s appended", f, pre, brief(string(b)), brief(want))
	}
	v := reflect.New(typeOf[[]byte]()).Elem()
	v.SetBytes(b)
	h.keep("bytes", v)
}

// copyingSink retains nothing.
type copyingSink struct {
	data []byte
}

func (k *copyingSink) Write(b []byte) (int, error) {
	simrt.Yield()
	k.data = append(k.data, b...)
	return len(b), nil
}

func aliasWriter(s *simrt.Sim, g *gen, h *holder, name string, knobs *simrt.Stream) {
	f := pickFormat(knobs)
	st := s.Src.Stream("alias")
	var msgs []*message
	for range g.many(knobs, 1+knobs.Pick(1, 3, 3, 2)) {
		m := g.message()
		if m.typ == nil {
			m.bare = true
			m.w = &W{T: thriftwire.String, S: string(g.vals.bytes())}
		}
		msgs = append(msgs, m)
	}
	note(s, "%s %v: %v", name, f, msgs)
	s.Go(name, func() {
		k := &copyingSink{}
		x := f.protocol().NewWriter(k)
		start := 0 // first message of this stream
		finish := func(upTo int) {
			if err := x.Flush(); err != nil {
				s.Fail("write-error", "Flush: %v", err)
			}
			d := decoder{f: f, b: k.data}
			for _, m := range msgs[start:upTo] {
				if !m.bare {
					hd, err := d.message()
					if err != nil || hd != m.h {
						s.Fail("output", "%v: %v: header on the wire %+v, %v", f, m, hd, err)
					}
				}
				w, err := d.read(m.w.T)
				if err != nil {
					s.Fail("output", "%v: %v: %v", f, m, err)
				}
				if df := diffW(w, m.w); df != "" {
					s.Fail("output", "%v: %v: what was written differs from the value at that time: %s", f, m, df)
				}
			}
			if d.p != len(k.data) {
				s.Fail("output", "%v: %d bytes left over", f, len(k.data)-d.p)
			}
		}
		for i, m := range msgs {
			if m.typ == nil {
				b := []byte(m.w.S)
				var err error
				if st.N(4) == 0 {
					err = x.WriteString(m.w.S)
				} else {
					err = x.WriteBytes(b)
				}
				if err != nil {
					s.Fail("write-error", "%v", err)
				}
				if string(b) != m.w.S {
					s.Fail("input-modified", "%v: WriteBytes changed its argument", f)
				}
				for j := range b {
					b[j] ^= 0xFF
				}
			} else {
				v := m.v
				snap := clone(v)
				if err := send(x, m); err != nil {
					s.Fail("write-error", "%v: %v", m, err)
				}
				if d := diff(v, snap); d != "" {
					s.Fail("input-modified", "%v: Marshal of %v changed its input: %s", f, m, d)
				}
				switch st.N(3) {
				case 0: // the caller goes on using it
					scribbleValue(v, st, 0)
					s.Count("nontrivial.overwrite")
				case 1:
					h.keep("input "+m.String(), v)
				}
			}
			h.check("writing " + m.String())
			s.Event("wrote", uint64(i))
			switch st.N(4) {
			case 0:
				if err := x.Flush(); err != nil {
					s.Fail("write-error", "Flush: %v", err)
				}
				h.check("Flush")
			case 1:
				finish(i + 1)
				start = i + 1
				k = &copyingSink{}
				x.Reset(k)
			}
		}
		finish(len(msgs))
	})
}

var _ = bytes.Equal
var _ io.Reader
var _ = thrift.Marshal
