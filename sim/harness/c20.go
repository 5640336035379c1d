//go:build go1.25

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C20", run: runC20, quick: 600000, thorough: 18000000,
		race: [2]int{20000, 600000},
		real: []string{"thrift", "encoding/thriftwire (Skip)", "protocols (for some decodes of mismatching streams)", "reflect of the Go library"},
		stub: []string{"a protocol implementation that follows the calls and fails at a chosen one", "scheduler (preemption before every statement)", "sync primitives", "map iteration order"},
		rule: "A run is 1 to 4 tasks that Marshal and Unmarshal values of shared types through a protocol of their own that fails at a seeded call, decode values whose type differs from the declared one at some place, meet Go types that are not supported inside generated types, and pass arguments that are no values; every error is kept and inspected again at the end. Non-trivial if an error was met.",
	})
}

// place is what a call of the protocol is about.
type place struct {
	t       wtype
	g       reflect.Type // pointers dereferenced
	skipped bool         // inside something the Go type does not have
}

// readPlaces lists the place of every token of w read as a t, up to the first that has another type (or is not
// supported), whose place is then mismatch. exact tells whether it could be followed to the end.
func readPlaces(w *W, t reflect.Type, out *[]place) (mismatch *place) {
	t = deref(t)
	if wireType(t) != w.T {
		return &place{t: w.T, g: t}
	}
	add := func(p place) { *out = append(*out, p) }
	here := place{t: w.T, g: t}
	add(here)
	switch w.T {
	case thriftwire.Struct:
		fields := map[int16]reflect.Type{}
		for _, f := range refFields(t) {
			fields[f.id] = t.Field(f.index).Type
		}
		for _, f := range w.F {
			add(here)
			if ft, ok := fields[f.ID]; ok {
				if m := readPlaces(f.V, ft, out); m != nil {
					return m
				}
			} else {
				for range tokens(f.V, nil) {
					add(place{skipped: true})
				}
			}
			add(here)
		}
		add(here)
		add(here)
	case thriftwire.Map:
		for i := range w.K {
			if m := readPlaces(w.K[i], t.Key(), out); m != nil {
				return m
			}
			if m := readPlaces(w.V[i], t.Elem(), out); m != nil {
				return m
			}
		}
		add(here)
	case thriftwire.Set, thriftwire.List:
		for _, e := range w.E {
			if m := readPlaces(e, t.Elem(), out); m != nil {
				return m
			}
		}
		add(here)
	}
	return nil
}

// writePlace is the place of the call that failed, which the frames open at that time tell.
func writePlace(x *checkWriter, t reflect.Type) place {
	t = deref(t)
	for i, f := range x.stack {
		last := i == len(x.stack)-1
		if last && (strings.HasSuffix(x.op, "End") || x.op == "WriteFieldBegin") {
			return place{t: f.w.T, g: t}
		}
		n := f.n // of the element that is due
		if !last {
			n-- // of the one that is open
		}
		switch f.w.T {
		case thriftwire.Struct:
			for _, rf := range refFields(t) {
				if f.field != nil && rf.id == f.field.ID {
					t = deref(t.Field(rf.index).Type)
					break
				}
			}
		case thriftwire.Map:
			if n%2 == 0 {
				t = deref(t.Key())
			} else {
				t = deref(t.Elem())
			}
		default:
			t = deref(t.Elem())
		}
	}
	return place{t: wireType(t), g: t}
}

// diagOp is one operation and what its error has to say.
type diagOp struct {
	kind  int // 0 Marshal, 1 Unmarshal, 2 Unmarshal with a real protocol, 3 Marshal of something unsupported, 4 Unmarshal into it, 5 no value, 6 no destination
	f     format
	typ   reflect.Type
	v     reflect.Value
	byVal bool
	w     *W
	toks  []token
	at    []place
	miss  *place
	bad   []reflect.Type // 3 and 4: the unsupported type, or what immediately holds it
	arg   any
}

var diagKinds = []string{"Marshal", "Unmarshal", "Unmarshal", "Marshal", "Unmarshal", "Marshal", "Unmarshal"}

func (o *diagOp) String() string {
	switch o.kind {
	case 2:
		return fmt.Sprintf("%v Unmarshal %s", o.f, typeName(o.typ))
	case 5, 6:
		return fmt.Sprintf("%s of a %T", diagKinds[o.kind], o.arg)
	}
	return diagKinds[o.kind] + " " + typeName(o.typ)
}

// kept is an error met earlier.
type kept struct {
	what string
	err  error
	text string
	sem  *thrift.SemanticError
	copy thrift.SemanticError
}

func (k *kept) check(s *simrt.Sim) {
	if t := errText(k.err); t != k.text {
		s.Fail("changed", "%s: the error read %q and now reads %q", k.what, k.text, t)
	}
	if k.sem != nil && (k.sem.ThriftType != k.copy.ThriftType || k.sem.GoType != k.copy.GoType) {
		s.Fail("changed", "%s: the error was about Thrift %v and Go %v and now is about %v and %v", k.what,
			k.copy.ThriftType, k.copy.GoType, k.sem.ThriftType, k.sem.GoType)
	}
}

var badPool = []reflect.Type{
	typeOf[int](), typeOf[uint](), typeOf[uintptr](), typeOf[complex64](), typeOf[complex128](), typeOf[chan int](), typeOf[any](), typeOf[error](),
	typeOf[func()](), typeOf[[4]byte](), typeOf[[16]int8](), typeOf[[3]string](), typeOf[[0]bool](), typeOf[BadUUID](), typeOf[fmt.Stringer](),
	typeOf[BadTag](), typeOf[BadTag](), typeOf[BadTags](), typeOf[BadHidden](), typeOf[BadNone](), typeOf[BadUntagged](),
}

// Structs that are rejected for their tags.
type (
	BadTag struct {
		A int32 `thrift:"x"`
	}
	BadTags struct {
		A string `thrift:"1"`
		B []byte `thrift:"2,required,required"`
	}
	BadHidden struct {
		a int32 `thrift:"1"`
		B int32 `thrift:"2"`
	}
	BadNone     struct{ a, b int }
	BadUntagged struct{ A, B int32 }
)

// BadUUID is an array type other than [16]byte.
type BadUUID [16]byte

// badWrap puts t, whose value v is, into n other types; w is the value as a peer might send it. The unsupported
// part is reached whenever the value is.
func badWrap(g *gen, st *simrt.Stream, o *diagOp, t reflect.Type, n int) {
	w := g.rawValue()
	v := reflect.New(t).Elem()
	direct := true // the value wrapped so far is the unsupported one or a pointer to it
	o.bad = []reflect.Type{t}
	for range n {
		var outer reflect.Type
		var ov reflect.Value
		switch st.Pick(2, 3, 2, 6) {
		case 0:
			outer = reflect.PointerTo(t)
			ov = reflect.New(outer).Elem()
			if !direct || st.N(2) == 0 {
				p := reflect.New(t)
				p.Elem().Set(v)
				ov.Set(p)
			}
			o.bad = append(o.bad, outer)
			t, v = outer, ov
			continue
		case 1:
			outer = reflect.SliceOf(t)
			ov = reflect.MakeSlice(outer, 1+st.N(2), 3)
			ov.Index(0).Set(v)
			ow := &W{T: thriftwire.List, VT: w.T, E: []*W{w}}
			w = ow
		case 2:
			if t.Comparable() && t.Kind() != reflect.Interface && t.Kind() != reflect.Pointer && st.N(3) == 2 {
				outer = reflect.MapOf(t, typeOf[string]())
				ov = reflect.MakeMap(outer)
				ov.SetMapIndex(v, reflect.ValueOf("value"))
				w = &W{T: thriftwire.Map, KT: w.T, VT: thriftwire.String, K: []*W{w}, V: []*W{{T: thriftwire.String, S: "value"}}}
				break
			}
			outer = reflect.MapOf(typeOf[int16](), t)
			ov = reflect.MakeMap(outer)
			ov.SetMapIndex(reflect.ValueOf(int16(5)), v)
			w = &W{T: thriftwire.Map, KT: thriftwire.I16, VT: w.T, K: []*W{{T: thriftwire.I16, I: 5}}, V: []*W{w}}
		default:
			g.types.n++
			outer = reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: typeOf[int32](), Tag: `thrift:"1"`},
				{Name: "B", Type: t, Tag: `thrift:"2,required"`},
				{Name: "C", Type: typeOf[string](), Tag: `thrift:"3,required"`},
				{Name: "Nonce", Type: typeOf[struct{}](), Tag: reflect.StructTag(fmt.Sprintf(`thrift:"-" n:"%x.%d"`, g.types.nonce, g.types.n))},
			})
			ov = reflect.New(outer).Elem()
			ov.Field(0).SetInt(int64(st.N(2)))
			ov.Field(1).Set(v)
			w = &W{T: thriftwire.Struct, F: []WF{{1, &W{T: thriftwire.I32, I: 4}}, {2, w}, {3, &W{T: thriftwire.String, S: "tail"}}}}
		}
		if direct {
			o.bad = append(o.bad, outer)
		}
		direct = false
		t, v = outer, ov
	}
	o.typ, o.v, o.w = t, reflect.New(t).Elem(), w
	o.v.Set(v)
}

// retype replaces something in w, a conforming value of type t, by values of another type.
func retype(e *evolver, st *simrt.Stream, w *W, depth int) *W {
	out := *w
	stop := st.N(3) == 0
	switch {
	case w.T == thriftwire.Struct && len(w.F) > 0:
		out.F = append([]WF(nil), w.F...)
		i := st.N(len(w.F))
		if f := &out.F[i]; stop || scalarW(f.V) {
			f.V = e.other(f.V.T)
		} else {
			f.V = retype(e, st, f.V, depth+1)
		}
	case w.T == thriftwire.Map && len(w.K) > 0:
		if st.N(3) == 0 {
			k := e.other(w.KT)
			out.KT, out.K = k.T, nil
			for range w.K {
				out.K = append(out.K, k)
			}
			break
		}
		out.V = append([]*W(nil), w.V...)
		if stop || scalarW(w.V[0]) {
			v := e.other(w.VT)
			out.VT = v.T
			for i := range out.V {
				out.V[i] = v
			}
		} else {
			i := st.N(len(w.V))
			out.V[i] = retype(e, st, w.V[i], depth+1)
		}
	case (w.T == thriftwire.List || w.T == thriftwire.Set) && len(w.E) > 0:
		out.E = append([]*W(nil), w.E...)
		if stop || scalarW(w.E[0]) {
			v := e.other(w.VT)
			out.VT = v.T
			for i := range out.E {
				out.E[i] = v
			}
		} else {
			i := st.N(len(w.E))
			out.E[i] = retype(e, st, w.E[i], depth+1)
		}
	}
	return &out
}

func scalarW(w *W) bool { return len(w.F) == 0 && len(w.K) == 0 && len(w.E) == 0 }

func genDiagOp(s *simrt.Sim, g *gen, st *simrt.Stream, typ reflect.Type) *diagOp {
	o := &diagOp{kind: st.Pick(5, 6, 3, 2, 2, 1, 1), typ: typ, f: pickFormat(st)}
	switch o.kind {
	case 0:
		o.v = reflect.New(o.typ).Elem()
		o.v.Set(g.vals.value(o.typ))
		o.w = toW(o.v)
		o.byVal = o.typ.Kind() != reflect.Pointer && st.N(4) == 3
	case 1, 2:
		e := &evolver{s: s, st: st, raw: g.raw, drops: true}
		w := toW(g.vals.value(o.typ))
		if st.N(3) > 0 {
			w = retype(e, st, w, 0)
		}
		if st.N(3) == 2 {
			e.stale = 1
		}
		// What the receiver does not know is added last, so that it stays as it is.
		o.w = e.outside(w, o.typ)
		o.miss = readPlaces(o.w, o.typ, &o.at)
	case 3, 4:
		badWrap(g, st, o, badPool[st.N(len(badPool))], st.N(5))
	case 5, 6:
		null := reflect.Zero(reflect.PointerTo(typ))
		switch st.N(5) {
		case 0:
			o.arg = nil
		case 1:
			o.arg = null.Interface()
		case 2:
			o.arg = reflect.Zero(reflect.PointerTo(null.Type())).Interface()
		case 3:
			o.arg = reflect.Zero(reflect.PointerTo(badPool[st.N(len(badPool))])).Interface()
		case 4:
			if o.arg = null.Interface(); o.kind == 6 && typ.Kind() != reflect.Pointer {
				o.arg = reflect.Zero(typ).Interface() // a value is no destination
			}
		}
	}
	if o.w != nil {
		o.toks = tokens(o.w, nil)
	}
	return o
}

// outside is evolve for a w that need not conform to t: only what conforms is edited.
func (e *evolver) outside(w *W, t reflect.Type) *W {
	var at []place
	if readPlaces(w, t, &at) != nil {
		return w
	}
	return e.value(w, t)
}

// run performs the operation with a failure at call failAt and returns the number of calls and the error.
func (o *diagOp) run(s *simrt.Sim, name string, failAt int, cause error, junk bool) (n int, k *kept) {
	f := faults{s: s, what: fmt.Sprintf("%s: %v", name, o), failAt: failAt, err: cause, lax: true}
	if failAt > 0 {
		f.what += fmt.Sprintf(", failure at call %d", failAt)
	}
	var err error
	var xf *faults
	var where *place
	var fail bool // it has to fail
	call := func(fn func()) (ok bool) {
		defer func() {
			switch r := recover(); r.(type) {
			case nil:
			case abandoned:
				ok = false
			default:
				panic(r)
			}
		}()
		fn()
		return true
	}
	switch o.kind {
	case 0, 3, 5:
		x := &checkWriter{faults: f}
		arg := o.arg
		if o.kind != 5 {
			x.want = wireType(o.typ)
			if arg = o.v.Addr().Interface(); o.byVal {
				arg = o.v.Interface()
			}
		}
		if !call(func() { err = thrift.Marshal(x, arg) }) {
			return 0, nil
		}
		xf = &x.faults
		fail = o.kind != 0
		if x.failed && o.kind == 0 {
			p := writePlace(x, o.typ)
			where = &p
		}
	case 1, 4, 6:
		x := &playReader{faults: f, toks: o.toks, junk: junk}
		arg := o.arg
		if o.kind != 6 {
			arg = reflect.New(o.typ).Interface()
		}
		if !call(func() { err = thrift.Unmarshal(x, arg) }) {
			return 0, nil
		}
		xf = &x.faults
		fail = o.kind != 1 || o.miss != nil
		if x.failed && o.kind == 1 && x.pos < len(o.at) {
			where = &o.at[x.pos]
		}
		if !x.failed && o.miss != nil && x.n != len(o.at) {
			s.Fail("late", "%s: %d calls, but what does not fit comes after %d", f.what, x.n, len(o.at))
		}
	case 2:
		data := encode(o.f, nil, o.w)
		src := &onlyReader{bytes.NewReader(data)}
		err = thrift.Unmarshal(o.f.protocol().NewReader(src), reflect.New(o.typ).Interface())
		xf = &f
		fail = o.miss != nil
		if err != nil && o.miss == nil {
			return 0, nil // another property
		}
	}
	n = xf.n
	if err == nil {
		if fail && !xf.failed {
			s.Fail("accepted", "%s: reported success", f.what)
		}
		return n, nil
	}
	if !fail && !xf.failed {
		return n, nil
	}
	s.Count("nontrivial.error")
	k = &kept{what: f.what, err: err, text: errText(err)}
	if errors.As(err, &k.sem) {
		k.copy = thrift.SemanticError{ThriftType: k.sem.ThriftType, GoType: k.sem.GoType}
	}
	if xf.failed {
		if where == nil || where.skipped {
			return n, k
		}
		k.about(s, where, o.kind)
		if !strings.Contains(k.text, xf.op+": ") {
			s.Fail("unnamed", "%s: %s failed, but the error does not say so: %v", f.what, xf.op, err)
		}
		return n, k
	}
	switch o.kind {
	case 1, 2:
		k.about(s, o.miss, o.kind)
	case 3, 4:
		if k.sem == nil {
			s.Fail("kind", "%s: %v is no SemanticError", f.what, err)
		}
		ok := false
		for _, t := range o.bad {
			ok = ok || t == k.sem.GoType
		}
		if !ok {
			s.Fail("go-type", "%s: the error is about %v, not about %v: %v", f.what, k.sem.GoType, o.bad, err)
		}
	case 5, 6:
		if n > 0 {
			s.Fail("late", "%s: %d calls before the argument was rejected", f.what, n)
		}
	}
	k.action(s, o.kind)
	return n, k
}

// about insists that the error is about p.
func (k *kept) about(s *simrt.Sim, p *place, kind int) {
	if k.sem == nil {
		s.Fail("kind", "%s: %v is no SemanticError", k.what, k.err)
	}
	if k.sem.ThriftType != p.t {
		s.Fail("thrift-type", "%s: the error is about Thrift type %v, not %v: %v", k.what, k.sem.ThriftType, p.t, k.err)
	}
	if k.sem.GoType != p.g {
		s.Fail("go-type", "%s: the error is about Go type %v, not %v: %v", k.what, k.sem.GoType, p.g, k.err)
	}
	k.action(s, kind)
	for _, part := range []string{p.g.String(), thriftNames[p.t]} {
		if !strings.Contains(k.text, part) {
			s.Fail("unnamed", "%s: the error does not mention %s: %v", k.what, part, k.err)
		}
	}
}

var thriftNames = map[wtype]string{
	thriftwire.Bool: "Thrift bool", thriftwire.Byte: "Thrift byte", thriftwire.Double: "Thrift double", thriftwire.I16: "Thrift i16",
	thriftwire.I32: "Thrift i32", thriftwire.I64: "Thrift i64", thriftwire.String: "Thrift string", thriftwire.Struct: "Thrift struct",
	thriftwire.Map: "Thrift map", thriftwire.Set: "Thrift set", thriftwire.List: "Thrift list", thriftwire.UUID: "Thrift UUID",
}

func (k *kept) action(s *simrt.Sim, kind int) {
	want, other := " marshal ", " unmarshal "
	if diagKinds[kind] == "Unmarshal" {
		want, other = other, want
	}
	head := k.text
	if i := strings.Index(head, ":"); i >= 0 { // after the package name
		head = head[i+1:]
	}
	head += " "
	if i, j := strings.Index(head, strings.TrimRight(want, " ")), strings.Index(head, strings.TrimRight(other, " ")); i < 0 || j >= 0 && j < i {
		s.Fail("action", "%s: the error does not say that this is%s: %v", k.what, want, k.err)
	}
}

// tooDeep makes an operation on something nested too deep: a value that contains itself, or data that a recursive
// type follows for more levels than it may. The error is about a value on the way down.
func tooDeep(s *simrt.Sim, st *simrt.Stream, name string) *kept {
	f := pickFormat(st)
	var err error
	kind := st.N(2)
	k := &kept{}
	if kind == 0 {
		v := endless[st.N(len(endless))]
		k.what = fmt.Sprintf("%s: %v Marshal of a %v that contains itself", name, f, v.Type())
		err = thrift.Marshal(f.protocol().NewWriter(io.Discard), v.Addr().Interface())
		if err == nil {
			s.Fail("accepted", "%s: reported success", k.what)
		}
	} else {
		unit, typ := []byte{15, 0, 0, 0, 1}, typeOf[RecL]()
		if f == fmtCompact {
			unit = []byte{0x19}
		}
		if st.N(2) == 0 {
			typ = typeOf[Node]()
			if unit = []byte{12, 0, 2}; f == fmtCompact {
				unit = []byte{0x2c}
			}
		}
		n := 10100 + st.N(20000)
		s.Fault("nesting", n)
		k.what = fmt.Sprintf("%s: %v Unmarshal %s, %d levels", name, f, typeName(typ), n)
		err = thrift.Unmarshal(f.protocol().NewReader(&onlyReader{bytes.NewReader(bytes.Repeat(unit, n))}), reflect.New(typ).Interface())
		if err == nil { // and yet the data end within the value
			s.Fail("accepted", "%s: reported success", k.what)
		}
	}
	s.Count("nontrivial.deep-error")
	k.err, k.text = err, errText(err)
	if !errors.As(err, &k.sem) {
		s.Fail("kind", "%s: %v is no SemanticError", k.what, err)
	}
	k.copy = thrift.SemanticError{ThriftType: k.sem.ThriftType, GoType: k.sem.GoType}
	if k.sem.GoType == nil || k.sem.GoType.Kind() == reflect.Pointer || wireType(k.sem.GoType) != k.sem.ThriftType {
		s.Fail("go-type", "%s: the error is about Thrift type %v and Go type %v, which do not go together: %v", k.what,
			k.sem.ThriftType, k.sem.GoType, err)
	}
	k.action(s, kind)
	return k
}

// onlyReader hides everything but Read.
type onlyReader struct{ r io.Reader }

func (r *onlyReader) Read(p []byte) (int, error) { return r.r.Read(p) }

func runC20(s *simrt.Sim) {
	g := newGen(s)
	knobs := s.Src.Stream("knobs")
	if knobs.N(8) < 7 {
		g.tiny()
	}
	st := s.Src.Stream("diag")
	types := []reflect.Type{g.types.top()}
	if knobs.N(2) == 1 {
		types = append(types, g.types.top())
	}
	ntasks := 1 + knobs.Pick(3, 3, 2, 1)
	var all []*kept
	var shared []*diagOp // the types of which several tasks use for the first time
	for i := range ntasks {
		name := fmt.Sprintf("t%d", i)
		var ops []*diagOp
		for range 1 + knobs.Pick(3, 3, 1) {
			o := genDiagOp(s, g, st, types[knobs.N(len(types))])
			if len(shared) > 0 && knobs.N(3) == 2 {
				o = shared[knobs.N(len(shared))]
			}
			shared = append(shared, o)
			ops = append(ops, o)
		}
		deep := knobs.N(250) == 249
		note(s, "%s: %v", name, ops)
		s.Go(name, func() {
			var mine []*kept
			keep := func(k *kept) {
				if k != nil {
					mine = append(mine, k)
					s.EventStr("error", k.text)
				}
			}
			for _, o := range ops {
				calls, k := o.run(s, name, 0, nil, false)
				keep(k)
				for range 1 + st.N(4) {
					if calls == 0 {
						break
					}
					at := 1 + st.N(calls)
					_, k := o.run(s, name, at, drawCause(st, at), st.N(2) == 1)
					keep(k)
				}
			}
			if deep {
				keep(tooDeep(s, st, name))
			}
			for _, k := range mine {
				k.check(s)
			}
			all = append(all, mine...)
		})
	}
	s.Policy(800 * ntasks)
	s.Run()
	for _, k := range all {
		k.check(s)
	}
}
