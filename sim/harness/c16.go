//go:build go1.25

package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"slices"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C16", run: runC16, quick: 160000, thorough: 4800000, real: realWire, stub: stubNet,
		rule: "A run is 1 to 3 tasks that each decode 2 to 7 messages into one destination, with evolved schemas, failing decodes (stream cut, transport error, retyped field) in between, and a user who shortens, grows and refills the destination's slices and maps between the decodes; non-trivial if a fault was injected or the destination held data before a decode.",
	})
}

// mention adds fields of t that w lacks, with zero values.
func mention(w *W, t reflect.Type, st *simrt.Stream, p int) *W {
	t = deref(t)
	out := *w
	switch w.T {
	case thriftwire.Struct:
		out.F = nil
		types := map[int16]reflect.Type{}
		for _, f := range refFields(t) {
			types[f.id] = t.Field(f.index).Type
		}
		for _, f := range w.F {
			nf := f
			if ft, ok := types[f.ID]; ok {
				if wireType(deref(ft)) == f.V.T {
					nf.V = mention(f.V, ft, st, p)
				}
				delete(types, f.ID)
			}
			out.F = append(out.F, nf)
		}
		for _, f := range refFields(t) {
			if _, ok := types[f.id]; ok && st.N(p) == 0 {
				at := st.N(len(out.F) + 1)
				z := reflect.New(t.Field(f.index).Type).Elem()
				out.F = append(out.F[:at:at], append([]WF{{f.id, toW(z)}}, out.F[at:]...)...)
			}
		}
	case thriftwire.List, thriftwire.Set:
		if t.Kind() != reflect.Slice || w.VT != wireType(deref(t.Elem())) {
			return &out
		}
		out.E = nil
		for _, x := range w.E {
			out.E = append(out.E, mention(x, t.Elem(), st, p))
		}
	case thriftwire.Map:
		if t.Kind() != reflect.Map {
			return &out
		}
		out.V = nil
		for _, x := range w.V {
			out.V = append(out.V, mention(x, t.Elem(), st, p))
		}
	}
	return &out
}

// lengthen repeats elements of lists and sets in w, a value of type t.
func lengthen(w *W, t reflect.Type, st *simrt.Stream, left *int) *W {
	t = deref(t)
	out := *w
	switch w.T {
	case thriftwire.Struct:
		out.F = nil
		types := map[int16]reflect.Type{}
		for _, f := range refFields(t) {
			types[f.id] = t.Field(f.index).Type
		}
		for _, f := range w.F {
			if ft, ok := types[f.ID]; ok && wireType(deref(ft)) == f.V.T {
				f.V = lengthen(f.V, ft, st, left)
			}
			out.F = append(out.F, f)
		}
	case thriftwire.List, thriftwire.Set:
		if t.Kind() != reflect.Slice || w.VT != wireType(deref(t.Elem())) || len(w.E) == 0 {
			return &out
		}
		out.E = nil
		for _, x := range w.E {
			out.E = append(out.E, lengthen(x, t.Elem(), st, left))
		}
		for n := 12 + st.N(70); n > 0 && *left > 0; n-- {
			x := out.E[st.N(len(w.E))]
			*left -= nodes(x)
			out.E = append(out.E, x)
		}
	}
	return &out
}

func nodes(w *W) int {
	n := 1
	for _, f := range w.F {
		n += nodes(f.V)
	}
	for i := range w.K {
		n += nodes(w.K[i]) + nodes(w.V[i])
	}
	for _, x := range w.E {
		n += nodes(x)
	}
	return n
}

// reuse changes a destination as its owner may between decodes.
func reuse(v reflect.Value, g *gen, st *simrt.Stream, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch st.N(8) {
		case 6:
			v.SetZero()
		case 7:
			v.Set(clone(v))
		default:
			reuse(v.Elem(), g, st, depth+1)
		}
	case reflect.Slice:
		n := v.Len()
		switch st.N(6) {
		case 1: // the usual reuse idiom
			v.SetLen(0)
		case 2:
			v.SetLen(st.N(n + 1))
		case 3: // spare capacity with something in it
			k := n + 1 + st.N(6)
			if depth < 2 && st.N(4) == 0 {
				k += 10 + st.N(60)
			}
			s := reflect.MakeSlice(v.Type(), k, k)
			reflect.Copy(s, v)
			if depth < 3 {
				for i := n; i < k; i++ {
					e := reflect.New(v.Type().Elem()).Elem()
					g.vals.left = 12
					g.vals.fill(e, 3)
					s.Index(i).Set(e)
				}
			}
			s = s.Slice(0, st.N(k+1))
			v.Set(s)
		case 4:
			if st.N(2) == 0 {
				v.SetZero()
				return
			}
			v.SetLen(v.Cap()) // bring the spare capacity back
		case 5: // elements that share what they point to
			if n < 2 {
				break
			}
			if i := st.N(n); st.N(2) == 0 { // removed by moving the rest up, so that the last one is there twice
				reflect.Copy(v.Slice(i, n), v.Slice(i+1, n))
				v.SetLen(n - 1)
			} else {
				v.Index(i).Set(v.Index(st.N(n)))
			}
		}
		for i := range min(v.Len(), 20) {
			reuse(v.Index(i), g, st, depth+1)
		}
	case reflect.Map:
		if v.IsNil() || st.N(3) != 2 {
			return
		}
		keys := v.MapKeys()
		sortKeys(keys)
		for _, k := range keys {
			if st.N(3) == 2 {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Field(i).CanSet() && v.Type().Field(i).Name != "Nonce" {
				reuse(v.Field(i), g, st, depth+1)
			}
		}
	}
}

// pointers lists the pointers and maps a destination holds in struct fields.
func pointers(v reflect.Value, path string, out map[string]uintptr) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && len(path) < 200 {
			if v.Type().Elem().Size() > 0 {
				out[path] = v.Pointer()
			}
			pointers(v.Elem(), path+"*", out)
		}
	case reflect.Map:
		if !v.IsNil() {
			out[path+"[]"] = v.Pointer()
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if f := v.Type().Field(i); f.IsExported() {
				pointers(v.Field(i), path+"."+f.Name, out)
			}
		}
	}
}

func isEmpty(v reflect.Value) bool { return len(diffString(v)) == 0 }

func diffString(v reflect.Value) string { return diff(v, reflect.Zero(v.Type())) }

// reuseStep is one decode into the destination.
type reuseStep struct {
	f     format
	w     *W
	data  []byte
	cut   int
	cause error
	touch bool
	mode  netMode
}

func runC16(s *simrt.Sim) {
	g := newGen(s)
	g.tiny()
	knobs := s.Src.Stream("knobs")
	fs := s.Src.Stream("fault")
	st := s.Src.Stream("schema")
	us := s.Src.Stream("owner")
	n := 1 + knobs.Pick(4, 2, 1)
	shared := g.types.top()
	for i := range n {
		typ := shared
		if knobs.N(2) == 1 {
			typ = g.types.top()
		}
		for k := deref(typ).Kind(); k != reflect.Struct && k != reflect.Slice && k != reflect.Map; k = deref(typ).Kind() {
			typ = g.types.top()
		}
		name := fmt.Sprintf("t%d", i)
		var steps []*reuseStep
		faulty := knobs.N(4) > 0
		for range 2 + knobs.N(6) {
			x := &reuseStep{f: pickFormat(knobs), cut: -1, touch: knobs.N(3) == 2, mode: drawNetMode(knobs)}
			g.vals.tiny = knobs.N(3) > 0
			w := toW(g.vals.value(typ))
			e := &evolver{s: s, st: st, raw: g.raw, drops: st.N(2) == 1}
			if faulty && fs.N(6) == 5 {
				e.stale = 1
			}
			w = e.value(w, typ)
			if st.N(5) == 4 {
				left := 300
				w = lengthen(w, typ, st, &left)
			}
			if st.N(2) == 1 {
				w = mention(w, typ, st, 1+st.N(4))
			}
			x.w = w
			x.data = encode(x.f, nil, w)
			if faulty && fs.N(3) == 2 && len(x.data) > 0 {
				x.cut = fs.N(len(x.data))
				x.cause = []error{io.EOF, errReset, errTimeout, errTLS}[fs.N(4)]
			}
			steps = append(steps, x)
		}
		note(s, "%s: %d decodes into a %v", name, len(steps), typeName(typ))
		s.Go(name, func() { reuseTask(s, g, us, name, typ, steps) })
	}
	s.Policy(2500 * n)
	s.Run()
}

func reuseTask(s *simrt.Sim, g *gen, us *simrt.Stream, name string, typ reflect.Type, steps []*reuseStep) {
	dst := reflect.New(typ)
	var x [3]thriftwire.Reader
	for i, step := range steps {
		if step.touch {
			reuse(dst.Elem(), g, us, 0)
		}
		if !isEmpty(dst.Elem()) {
			s.Count("nontrivial.destination-in-use")
		}
		want := clone(dst.Elem())
		before := toText(dst.Elem())
		ferr := fromW(step.w, want)
		ptrs := map[string]uintptr{}
		pointers(dst.Elem(), "", ptrs)
		p := newFile(s, fmt.Sprintf("%s.%d", name, i), step.mode, step.data)
		if step.cut >= 0 {
			p.cutAt, p.cutErr = step.cut, step.cause
		}
		r := x[step.f]
		if r == nil {
			r = step.f.protocol().NewReader(p)
			x[step.f] = r
		} else {
			r.Reset(p)
		}
		err := thrift.Unmarshal(r, dst.Interface())
		where := fmt.Sprintf("%s: decode %d of %d into a %v (%v) that held %s", name, i+1, len(steps), typeName(typ), step.f, clip(before, 300))
		if step.cut >= 0 || ferr != nil {
			if err == nil {
				s.Fail("no-error", "%s: a failing decode (cut %d of %d, mismatch %v) reported success", where, step.cut, len(step.data), ferr)
			}
			if ferr == nil && !errors.Is(err, step.cause) && !isCause(err, step.cause) {
				s.Fail("cause", "%s: %v", where, err)
			}
			s.Event("failed", uint64(i))
			continue
		}
		if err != nil {
			s.Fail("error", "%s: %v", where, err)
		}
		if d := diff(dst.Elem(), want); d != "" {
			s.Fail("stale", "%s, message %s: %s", where, clip(step.w.String(), 300), d)
		}
		now := map[string]uintptr{}
		pointers(dst.Elem(), "", now)
		for path, a := range ptrs {
			if b := now[path]; a != b {
				s.Fail("pointer", "%s: the pointer or map at %s was replaced", where, path)
			}
		}
		s.Event("decoded", uint64(i))
	}
}

func toText(v reflect.Value) string { return toW(v).String() }

func sortKeys(keys []reflect.Value) {
	type keyed struct {
		k    reflect.Value
		text string
	}
	ks := make([]keyed, len(keys))
	for i, k := range keys {
		ks[i] = keyed{k, toW(k).key()}
	}
	slices.SortStableFunc(ks, func(a, b keyed) int { return strings.Compare(a.text, b.text) })
	for i := range ks {
		keys[i] = ks[i].k
	}
}
