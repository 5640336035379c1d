//go:build go1.25

package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C07", run: runC07, quick: 400000, thorough: 12000000, race: [2]int{40000, 1000000},
		real: realWire, stub: []string{"scheduler (preemption before every statement)", "sync primitives", "map iteration order", "the underlying readers and writers"},
		rule: "A run is 2 to 6 tasks that each marshal and unmarshal 1 to 4 values of 1 to 3 shared types (recursive, mutually recursive, never seen before, or rejected) through their own readers and writers, starting from an empty type cache; every run with more than two task switches is non-trivial.",
	})
}

// marshalOp is one Marshal or Unmarshal call with its result.
type marshalOp struct {
	f      format
	typ    reflect.Type
	enc    bool
	v      reflect.Value // input of Marshal
	byVal  bool
	snap   reflect.Value // copy of it
	data   []byte        // input of Unmarshal
	err    error
	out    []byte        // output of Marshal
	dst    reflect.Value // output of Unmarshal
	reject bool
	want   reflect.Value
	w      *W
	bad    bool // data is damaged
	fail   int  // the call at which the protocol fails; 0 never
	root   *W   // what a protocol that may fail was told
}

func (o *marshalOp) String() string {
	if o.enc {
		return fmt.Sprintf("Marshal %v", typeName(o.typ))
	}
	return fmt.Sprintf("Unmarshal %v", typeName(o.typ))
}

// failing marshals into a protocol of its own that fails at a call, if there are that many.
func (o *marshalOp) failing(s *simrt.Sim) *marshalOp {
	r := *o
	x := &checkWriter{faults: faults{s: s, failAt: o.fail, err: errShared, lax: true}, want: o.w.T}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abandoned); !ok {
				panic(e)
			}
			r.err = errors.New("calls that make no sense")
		}
		r.root = x.root
	}()
	r.err = thrift.Marshal(x, o.v.Addr().Interface())
	return &r
}

func (o *marshalOp) run(s *simrt.Sim) *marshalOp {
	if o.fail > 0 {
		return o.failing(s)
	}
	r := *o
	if o.enc {
		var out bytes.Buffer
		x := o.f.protocol().NewWriter(&out)
		if o.byVal {
			r.err = thrift.Marshal(x, o.v.Interface())
		} else {
			r.err = thrift.Marshal(x, o.v.Addr().Interface())
		}
		if err := x.Flush(); err != nil && r.err == nil {
			r.err = err
		}
		r.out = out.Bytes()
		return &r
	}
	x := o.f.protocol().NewReader(bytes.NewReader(o.data))
	p := reflect.New(o.typ)
	r.err = thrift.Unmarshal(x, p.Interface())
	r.dst = p.Elem()
	return &r
}

// check compares a result with the model and with the same call made alone.
func (o *marshalOp) check(s *simrt.Sim, solo *marshalOp, who string) {
	if o.fail > 0 { // which call fails may depend on the order of map entries
		switch {
		case (o.err == nil) != (solo.err == nil) || errors.Is(o.err, errShared) != errors.Is(solo.err, errShared):
			s.Fail("result", "%s: %v into a protocol that fails at call %d returned error %q; alone it returns %q", who, o, o.fail, errText(o.err), errText(solo.err))
		case o.err == nil && o.root == nil:
			s.Fail("result", "%s: %v into another protocol returned nil without a call", who, o)
		case o.err == nil:
			if d := diffW(o.root, o.w); d != "" {
				s.Fail("result", "%s: %v into another protocol: it was told something else than the value: %s", who, o, d)
			}
		}
		if d := diff(o.v, o.snap); d != "" {
			s.Fail("input-modified", "%s: %v into another protocol changed its input: %s", who, o, d)
		}
		return
	}
	if errText(o.err) != errText(solo.err) {
		s.Fail("result", "%s: %v (%v) returned error %q; alone it returns %q", who, o, o.f, errText(o.err), errText(solo.err))
	}
	if o.reject {
		if o.err == nil {
			s.Fail("result", "%s: %v of an unsupported type succeeded", who, o)
		}
		return
	}
	if o.enc {
		if o.err != nil {
			s.Fail("result", "%s: %v (%v): %v", who, o, o.f, o.err)
		}
		d := decoder{f: o.f, b: o.out}
		w, err := d.read(o.w.T)
		if err == nil && d.p != len(o.out) {
			err = fmt.Errorf("%d bytes left over", len(o.out)-d.p)
		}
		if err != nil {
			s.Fail("result", "%s: %v (%v): output is not well-formed: %v", who, o, o.f, err)
		}
		if d := diffW(w, o.w); d != "" {
			s.Fail("result", "%s: %v (%v): output differs from the value: %s", who, o, o.f, d)
		}
		if d := diff(o.v, o.snap); d != "" {
			s.Fail("input-modified", "%s: %v (%v) changed its input: %s", who, o, o.f, d)
		}
		return
	}
	if o.bad {
		if d := diff(o.dst, solo.dst); d != "" {
			s.Fail("result", "%s: %v (%v) of damaged input: %s; alone it differs", who, o, o.f, d)
		}
		return
	}
	if o.err != nil {
		s.Fail("result", "%s: %v (%v): %v", who, o, o.f, o.err)
	}
	if d := diff(o.dst, o.want); d != "" {
		s.Fail("result", "%s: %v (%v): %s", who, o, o.f, d)
	}
}

var relatives = map[reflect.Type][]reflect.Type{
	typeOf[MutA](): {typeOf[MutB](), typeOf[MutC](), typeOf[[]MutA](), typeOf[map[string]MutB]()},
	typeOf[MutB](): {typeOf[MutA](), typeOf[MutC](), typeOf[*MutB]()},
	typeOf[MutC](): {typeOf[MutA](), typeOf[MutB]()},
	typeOf[Node](): {typeOf[[]*Node](), typeOf[map[string]Node](), typeOf[Gen1[*Node]]()},
	typeOf[Rec]():  {typeOf[RecL](), typeOf[RecM](), typeOf[RecP](), typeOf[RecS](), typeOf[RecA](), typeOf[RecB](), typeOf[[]RecL]()},
	argsA():        {argsB(), argsC()},
	argsB():        {argsA(), argsC()},
	argsC():        {argsA(), argsB(), typeOf[Leaf]()},
	typeOf[Leaf](): {typeOf[Collections](), typeOf[[]Leaf](), typeOf[*Leaf](), typeOf[Gen1[Leaf]]()},
}

// Endless is a type whose values have no end.
type Endless struct {
	N *Endless `thrift:"1,required"`
}

var endless = func() (vs []reflect.Value) {
	n := &Node{ID: 1}
	n.Next = n
	l := RecL{nil, nil}
	l[1] = l
	m := RecM{"x": nil}
	m["x"] = m
	k := &Node{}
	k.Kids = []*Node{{}, {Named: map[string]*Node{"k": k}}}
	for _, v := range []any{n, &l, &m, k, &Endless{}} {
		vs = append(vs, reflect.ValueOf(v).Elem())
	}
	return
}()

func runC07(s *simrt.Sim) {
	g := newGen(s)
	g.tiny()
	knobs := s.Src.Stream("knobs")
	var types []reflect.Type
	nrej := 0
	for range 1 + knobs.Pick(4, 3, 1) {
		switch knobs.Pick(10, 6, 4, 1) {
		case 3:
			types = append(types, barePool[knobs.N(len(barePool))])
		case 0:
			t := structPool[knobs.N(len(structPool))]
			types = append(types, t)
			if r := relatives[t]; len(r) > 0 {
				types = append(types, r[knobs.N(len(r))])
			}
		case 1:
			types = append(types, g.types.structOf(0))
		case 2:
			types = append(types, rejectPool[knobs.N(len(rejectPool))])
			nrej++
		}
	}
	rejected := map[reflect.Type]bool{}
	for _, t := range rejectPool {
		rejected[t] = true
	}
	shared := map[reflect.Type]reflect.Value{}
	ntasks := 2 + knobs.Pick(5, 3, 1, 1, 1)
	tasks := make([][]*marshalOp, ntasks)
	one := types[knobs.N(len(types))]
	for i := range tasks {
		for range 1 + knobs.Pick(4, 3, 1, 1) {
			o := &marshalOp{f: pickFormat(knobs), typ: one, enc: knobs.N(2) == 0}
			if knobs.N(3) == 2 {
				o.typ = types[knobs.N(len(types))]
			}
			o.reject = rejected[o.typ]
			switch {
			case o.reject && o.enc:
				o.v = reflect.New(o.typ).Elem()
				o.snap = o.v
				populate(o.v)
			case o.reject:
				o.data = make([]byte, 64)
				if o.typ.Kind() == reflect.Slice || o.typ.Kind() == reflect.Map || o.typ.Kind() == reflect.Struct {
					o.data = rejectInput(o.f, o.typ)
				}
			case o.enc:
				v, ok := shared[o.typ]
				if !ok || knobs.N(2) == 1 {
					v = reflect.New(o.typ).Elem()
					v.Set(g.vals.value(o.typ))
					shared[o.typ] = v
				}
				o.v, o.snap, o.w = v, clone(v), toW(v)
				o.byVal = o.typ.Kind() != reflect.Pointer && knobs.N(4) == 3
				if knobs.N(6) == 5 {
					o.fail, o.byVal = 1+knobs.N(24), false
				}
			default:
				v := g.vals.value(o.typ)
				o.want = expected(v)
				o.w = toW(v)
				e := encoder{f: o.f}
				e.value(o.w)
				o.data = e.b
				if knobs.N(5) == 4 {
					o.bad = true
					o.data = o.data[:knobs.N(len(o.data)+1)]
				}
			}
			tasks[i] = append(tasks[i], o)
		}
	}
	if knobs.N(300) == 299 { // a value that contains itself, which has no encoding
		v := endless[knobs.N(len(endless))]
		tasks[0] = append(tasks[0], &marshalOp{f: pickFormat(knobs), typ: v.Type(), enc: true, v: v, snap: v, reject: true})
	}
	note(s, "%d tasks over %v: %v", ntasks, typeNames(types), tasks)
	// Alone, each on a process that has seen no type.
	solo := map[*marshalOp]*marshalOp{}
	for _, t := range tasks {
		for _, o := range t {
			simrt.Restart()
			solo[o] = o.run(s)
		}
	}
	simrt.Restart()
	results := make([][]*marshalOp, len(tasks)) // not a map: the race detector sees those, wherever they are
	for i, t := range tasks {
		name := fmt.Sprintf("t%d", i)
		results[i] = make([]*marshalOp, len(t))
		s.Go(name, func() {
			for j, o := range t {
				r := o.run(s)
				results[i][j] = r
				r.check(s, solo[o], name)
				s.Event("done", uint64(j))
			}
		})
	}
	s.Policy(1200 * ntasks)
	s.Run()
	// And inputs and results are as they were, once more at the end.
	for i, t := range tasks {
		for j, o := range t {
			if r := results[i][j]; r != nil {
				r.check(s, solo[o], "after all calls")
			}
			if o.enc && !o.reject {
				if d := diff(o.v, o.snap); d != "" {
					s.Fail("input-modified", "after all calls the input of %v differs: %s", o, d)
				}
			}
		}
	}
}

func typeNames(ts []reflect.Type) (ns []string) {
	for _, t := range ts {
		ns = append(ns, typeName(t))
	}
	return
}

// populate makes the offending part of a rejected type be reached.
func populate(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		k := reflect.New(v.Type().Key()).Elem()
		v.SetMapIndex(k, reflect.New(v.Type().Elem()).Elem())
	case reflect.Int, reflect.Int32:
		v.SetInt(1)
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Field(i).CanSet() {
				populate(v.Field(i))
			}
		}
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		if v.Elem().Kind() == reflect.Struct && v.Type().Elem() != typeOf[BadRec]() {
			populate(v.Elem())
		}
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("x"))
		}
	}
}

// rejectInput is a well-formed value that leads to the offending part.
func rejectInput(f format, t reflect.Type) []byte {
	e := encoder{f: f}
	i64 := &W{T: 10, I: 1}
	str := &W{T: 11, S: "x"}
	switch t.Kind() {
	case reflect.Slice:
		e.value(&W{T: 15, VT: 10, E: []*W{i64}})
	case reflect.Map:
		e.value(&W{T: 13, KT: 11, VT: 10, K: []*W{str}, V: []*W{i64}})
	case reflect.Struct:
		e.value(&W{T: 12, F: []WF{{1, &W{T: 8, I: 1}}, {2, &W{T: 10, I: 1}}, {3, i64}}})
	}
	return e.b
}
