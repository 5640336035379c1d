//go:build go1.25

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C18", run: runC18, quick: 600000, thorough: 18000000,
		race: [2]int{40000, 1000000},
		real: []string{"thrift", "reflect of the Go library"},
		stub: []string{"a protocol implementation that validates the grammar of calls and fails at a chosen one", "scheduler (preemption before every statement)", "sync primitives", "map iteration order"},
		rule: "A run is 1 to 4 tasks that race for the first use of 1 to 3 struct types never seen before, with well-formed or malformed tags, bare or inside other types, through a protocol of their own that may fail; every call is repeated later. Non-trivial if a malformed tag was met, a failure injected, or more than two task switches happened.",
	})
}

// tagType is a generated struct type and what its tags mean.
type tagType struct {
	t    reflect.Type
	bad  []string // names of the fields with a malformed tag
	desc []string // their tags
}

var tagLead = []string{"Fld", "ID", "Type", "Zed", "Élan", "X_y"}

func badTag(st *simrt.Stream, id int) (kind, tag string) {
	opt := []string{"", ",required", ",other"}[st.Pick(3, 2, 1)]
	switch kinds := []string{"missing", "range", "number", "duplicate", "misspelt", "comma", "character"}; kinds[st.N(7)] {
	case "missing":
		return "missing", []string{"", ",required", ","}[st.N(3)]
	case "range":
		return "range", []string{"32768", "-32769", "65536", "65537", "40000", "2147483648", "4294967297", "-4294967295", "99999999999999999999"}[st.N(9)] + opt
	case "number":
		return "number", []string{"x", fmt.Sprintf("%dx", id), fmt.Sprintf("%d.5", id), fmt.Sprintf("0x%x", id&0x7fff), fmt.Sprintf(" %d", id), fmt.Sprintf("%d ", id),
			"--1", "required", "-,", "1_0", "1e2", fmt.Sprintf("%d;required", id)}[st.N(12)] + opt
	case "duplicate":
		return "duplicate", fmt.Sprintf("%d%s", id, []string{",required,required", ",required,other,required", ",other,other", ",other,required,other", ",required,other,third,other"}[st.N(5)])
	case "misspelt":
		return "misspelt", fmt.Sprintf("%d,%s%s", id, []string{"", "other,"}[st.N(2)],
			[]string{"Required", "REQUIRED", "re_quired", "required_", "_required", "requireD", "_Re_quired_"}[st.N(7)])
	case "comma":
		return "comma", fmt.Sprintf("%d%s", id, []string{",", ",required,", ",,required", ",other,", ",required,,other"}[st.N(5)])
	default:
		return "character", fmt.Sprintf("%d%s", id, []string{",1", ",required;", ",required other", ", required", ",other,'x'", ",-", ",required=1", ",required "}[st.N(8)])
	}
}

// tagStruct makes a struct type with nbad malformed fields.
func tagStruct(g *gen, st *simrt.Stream, nbad int) *tagType {
	tt := &tagType{}
	n := max(nbad, 1+st.Pick(2, 3, 3, 2, 1, 1, 1))
	isBad := make([]bool, n)
	for i := range nbad {
		for j := st.N(n); ; j = (j + 1) % n {
			if !isBad[j] {
				isBad[j] = true
				_ = i
				break
			}
		}
	}
	used := map[int]bool{}
	var sfs []reflect.StructField
	var rf []refField
	for i := range n {
		if st.N(5) == 4 { // a field that is not part of the message
			sf := reflect.StructField{Name: fmt.Sprintf("Ign%d", i), Type: []reflect.Type{typeOf[chan int](), typeOf[int](), typeOf[string](), typeOf[any]()}[st.N(4)], Tag: `json:"x" thrift:"-"`}
			if st.N(2) == 1 {
				sf.Name, sf.PkgPath, sf.Tag = fmt.Sprintf("ign%d", i), "main", []reflect.StructTag{"", `thrift:"-"`, `json:"-"`}[st.N(3)]
			}
			sfs = append(sfs, sf)
		}
		id := 0
		for {
			id = []int{i + 1, st.N(200) - 50, st.N(65536) - 32768, []int{-32768, 32767, 0, -1, 15, 16}[st.N(6)]}[st.Pick(5, 3, 2, 2)]
			if !used[id] {
				break
			}
		}
		used[id] = true
		sf := reflect.StructField{Name: fmt.Sprintf("%s%d", tagLead[st.N(len(tagLead))], i)}
		switch st.Pick(6, 1, 1) {
		case 0:
			sf.Type = barePool[st.N(14)]
		case 1:
			sf.Type = structPool[st.N(len(structPool))]
		case 2:
			sf.Type = []reflect.Type{typeOf[[]string](), typeOf[map[int32]bool](), typeOf[*Leaf](), typeOf[thrift.Set[int16]](), typeOf[*string]()}[st.N(5)]
		}
		embedded := i == 0 && st.N(12) == 11
		if isBad[i] {
			sf.Name = fmt.Sprintf("Wrong%dField", i)
			kind, tag := badTag(st, id)
			sf.Tag = reflect.StructTag(fmt.Sprintf("thrift:%q", tag))
			switch st.N(7) {
			case 0: // no tag at all
				kind, sf.Tag = "missing", []reflect.StructTag{"", `json:"1"`, `thrifty:"1"`, `thrift:1`, `Thrift:"1"`}[st.N(5)]
			case 1: // a tag that is right, or wrong, on a field that cannot be set
				kind, sf.Name, sf.PkgPath = "unexported", fmt.Sprintf("wrong%dField", i), "main"
				if st.N(3) > 0 {
					sf.Tag = reflect.StructTag(fmt.Sprintf(`thrift:"%d"`, id))
				}
			}
			if st.N(4) == 3 { // whatever the type
				sf.Type = []reflect.Type{typeOf[any](), typeOf[int](), typeOf[chan int](), typeOf[func()](), typeOf[error](), typeOf[[3]byte](), typeOf[[]any](), typeOf[map[int]string](),
					typeOf[struct{}](), typeOf[*int](), typeOf[complex128](), typeOf[BadPtr]()}[st.N(12)]
			}
			if embedded && sf.PkgPath == "" {
				sf.Name, sf.Type, sf.Anonymous = "Leaf", typeOf[Leaf](), true
			}
			tt.bad = append(tt.bad, sf.Name)
			tt.desc = append(tt.desc, fmt.Sprintf("%s `%s`", sf.Name, sf.Tag))
			g.s.Count("malformed." + kind)
			g.s.Count("nontrivial.malformed")
		} else {
			req := false
			tag := fmt.Sprint(id)
			opts := map[string]bool{}
			for range st.Pick(6, 3, 1, 1) {
				// Unknown options may resemble each other.
				opt := []string{"required", "other", "omitempty", "Über", "Other", "OTHER", "o_ther", "other_", "_", "omitEmpty", "omit_empty", "über"}[st.Pick(12, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1)]
				if !opts[opt] {
					opts[opt] = true
					tag += "," + opt
					req = req || opt == "required"
				}
			}
			sf.Tag = reflect.StructTag([]string{"", `json:"a,omitempty" `}[st.N(2)] + fmt.Sprintf("thrift:%q", tag) + []string{"", ` xml:"b"`}[st.N(2)])
			if embedded {
				sf.Name, sf.Type, sf.Anonymous = "Key", typeOf[Key](), true
			}
			rf = append(rf, refField{len(sfs), int16(id), req})
		}
		sfs = append(sfs, sf)
	}
	g.types.n++
	sfs = append(sfs, reflect.StructField{Name: "Nonce", Type: typeOf[struct{}](), Tag: reflect.StructTag(fmt.Sprintf(`thrift:"-" n:"%x.%d"`, g.types.nonce, g.types.n))})
	tt.t = reflect.StructOf(sfs)
	sort.Slice(rf, func(i, j int) bool { return rf[i].id < rf[j].id })
	refFieldCache[tt.t] = rf
	return tt
}

// wrap puts t somewhere into another type.
func tagWrap(g *gen, st *simrt.Stream, t reflect.Type) reflect.Type {
	for range st.Pick(5, 3, 1) {
		switch st.N(7) {
		case 0:
			t = reflect.PointerTo(t)
		case 1:
			t = reflect.SliceOf(t)
		case 2:
			t = reflect.MapOf(keyPool[st.N(8)], t)
		case 3:
			t = reflect.MapOf(typeOf[string](), reflect.SliceOf(t))
		default:
			in := t
			if st.N(2) == 1 {
				in = reflect.PointerTo(t)
			}
			g.types.n++
			t = reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: typeOf[int32](), Tag: `thrift:"1"`},
				{Name: "B", Type: in, Tag: reflect.StructTag([]string{`thrift:"2"`, `thrift:"2,required"`}[st.N(2)])},
				{Name: "C", Type: typeOf[string](), Tag: `thrift:"3,required"`},
				{Name: "Nonce", Type: typeOf[struct{}](), Tag: reflect.StructTag(fmt.Sprintf(`thrift:"-" n:"%x.%d"`, g.types.nonce, g.types.n))},
			})
		}
	}
	return t
}

// nodesOf lists the parts of w, a value (or the beginning of one) of type t, that are of type want.
func nodesOf(w *W, t, want reflect.Type) (out []*W) {
	if w == nil {
		return nil
	}
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if t == want {
		return []*W{w}
	}
	switch t.Kind() {
	case reflect.Slice:
		if w.T == thriftwire.List || w.T == thriftwire.Set {
			for _, e := range w.E {
				out = append(out, nodesOf(e, t.Elem(), want)...)
			}
		}
	case reflect.Map:
		for _, k := range w.K {
			out = append(out, nodesOf(k, t.Key(), want)...)
		}
		for _, v := range w.V {
			out = append(out, nodesOf(v, t.Elem(), want)...)
		}
	case reflect.Struct:
		if !reaches(t, want) {
			return nil
		}
		for _, f := range refFields(t) {
			for _, wf := range w.F {
				if wf.ID == f.id {
					out = append(out, nodesOf(wf.V, t.Field(f.index).Type, want)...)
				}
			}
		}
	}
	return out
}

// tagOp is one Marshal or Unmarshal.
type tagOp struct {
	tt   *tagType
	typ  reflect.Type
	enc  bool
	v    reflect.Value
	w    *W
	want reflect.Value
	met  bool // the type is reached
	text string
	done bool
}

func (o *tagOp) String() string {
	return []string{"Unmarshal ", "Marshal "}[b2i(o.enc)] + typeName(o.typ)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func genTagOp(s *simrt.Sim, g *gen, st *simrt.Stream, tt *tagType, typ reflect.Type) *tagOp {
	o := &tagOp{tt: tt, typ: typ, enc: st.N(2) == 0}
	o.v = reflect.New(typ).Elem()
	o.v.Set(g.vals.value(typ))
	o.w = toW(o.v)
	o.met = len(tt.bad) > 0 && len(nodesOf(o.w, typ, tt.t)) > 0
	if !o.enc && len(tt.bad) == 0 {
		o.want = expected(o.v)
	}
	return o
}

func (o *tagOp) run(s *simrt.Sim, name string, failAt int) int {
	cause := error(&injected{failAt})
	f := faults{s: s, what: fmt.Sprintf("%s: %v", name, o), failAt: failAt, err: cause}
	if len(o.tt.bad) > 0 {
		f.what += fmt.Sprintf(" with %s", strings.Join(o.tt.desc, ", "))
	}
	var err error
	var n int
	if o.enc {
		x := &checkWriter{faults: f, want: o.w.T}
		err = thrift.Marshal(x, o.v.Addr().Interface())
		n = x.n
		if x.failed {
			return n
		}
		if len(o.tt.bad) == 0 {
			if err != nil {
				s.Fail("rejected", "%s: well-formed tags: %v", f.what, err)
			}
			if x.root == nil || len(x.stack) > 0 {
				s.Fail("meaning", "%s: succeeded with the value incomplete", f.what)
			}
			if d := diffW(x.root, o.w); d != "" {
				s.Fail("meaning", "%s: the calls differ from the value: %s", f.what, d)
			}
			return n
		}
		for _, w := range nodesOf(x.root, o.typ, o.tt.t) {
			if len(w.F) > 0 {
				s.Fail("partial", "%s: the struct was partly encoded (%d fields; error %v)", f.what, len(w.F), err)
			}
		}
	} else {
		x := &playReader{faults: f, toks: tokens(o.w, nil)}
		dst := reflect.New(o.typ)
		err = thrift.Unmarshal(x, dst.Interface())
		n = x.n
		if x.failed {
			return n
		}
		if len(o.tt.bad) == 0 {
			if err != nil {
				s.Fail("rejected", "%s: well-formed tags: %v", f.what, err)
			}
			if d := diff(dst.Elem(), o.want); d != "" {
				s.Fail("meaning", "%s: %s", f.what, d)
			}
			return n
		}
		if o.typ == o.tt.t && !dst.Elem().IsZero() {
			s.Fail("partial", "%s: the struct was partly decoded (error %v)", f.what, err)
		}
	}
	switch {
	case err == nil && o.met:
		s.Fail("accepted", "%s: malformed tags were accepted", f.what)
	case err != nil && !o.names(err):
		s.Fail("unnamed", "%s: the error names none of %v: %v", f.what, o.tt.bad, err)
	}
	if text := errText(err); !o.done {
		o.text, o.done = text, true
	} else if o.text != text {
		s.Fail("changed", "%s: %q, but %q the first time", f.what, text, o.text)
	}
	return n
}

func (o *tagOp) names(err error) bool {
	for _, n := range o.tt.bad {
		if strings.Contains(err.Error(), n) {
			return true
		}
	}
	return false
}

func runC18(s *simrt.Sim) {
	g := newGen(s)
	g.tiny()
	knobs := s.Src.Stream("knobs")
	st := s.Src.Stream("tags")
	var tts []*tagType
	types := map[*tagType][]reflect.Type{}
	for range 1 + knobs.Pick(4, 2, 1) {
		tt := tagStruct(g, st, knobs.Pick(3, 6, 1))
		tts = append(tts, tt)
		for range 1 + knobs.N(2) {
			types[tt] = append(types[tt], tagWrap(g, st, tt.t))
		}
	}
	defer func() {
		for _, tt := range tts {
			delete(refFieldCache, tt.t)
		}
	}()
	ntasks := 1 + knobs.Pick(2, 4, 2, 1)
	for i := range ntasks {
		name := fmt.Sprintf("t%d", i)
		var ops []*tagOp
		for range 1 + knobs.Pick(3, 3, 2) {
			tt := tts[knobs.N(len(tts))]
			ops = append(ops, genTagOp(s, g, st, tt, types[tt][knobs.N(len(types[tt]))]))
		}
		note(s, "%s: %v", name, ops)
		s.Go(name, func() {
			for _, o := range ops {
				if st.N(6) == 5 { // the first use fails for another reason
					s.Event("failure first", uint64(o.run(s, name, 1+st.N(8))))
				}
				o.run(s, name, 0)
			}
			for _, o := range ops {
				s.Event("again", uint64(o.run(s, name, 0)))
			}
		})
	}
	s.Policy(600 * ntasks)
	s.Run()
}
