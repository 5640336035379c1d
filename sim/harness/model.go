//go:build go1.25

package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// The reference model: W is the value a message carries, independent of protocol and Go type.
// toW and fromW are the meaning of Marshal and Unmarshal.

type wtype = thriftwire.Type

type W struct {
	T      wtype
	I      int64 // bool, byte, i16, i32, i64
	D      float64
	S      string
	U      [16]byte
	F      []WF // struct
	KT, VT wtype
	K, V   []*W     // map
	E      []*W     // set, list; element type in VT
	N      string   // name of the struct, as a protocol was told
	FN     []string // names of its fields
}

type WF struct {
	ID int16
	V  *W
}

type refField struct {
	index    int
	id       int16
	required bool
}

var refFieldCache = map[reflect.Type][]refField{}

// refFields lists the fields of a struct type that are part of messages, by ascending ID.
func refFields(t reflect.Type) []refField {
	if fs, ok := refFieldCache[t]; ok {
		return fs
	}
	fs := []refField{}
	for i := range t.NumField() {
		tag, ok := t.Field(i).Tag.Lookup("thrift")
		if !ok || tag == "-" || !t.Field(i).IsExported() {
			continue
		}
		id, opt, _ := strings.Cut(tag, ",")
		n, err := strconv.Atoi(id)
		if err != nil {
			panic(err)
		}
		fs = append(fs, refField{i, int16(n), opt == "required"})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	refFieldCache[t] = fs
	return fs
}

func isSetOrList(t reflect.Type) bool { return isSet(t) || genericName(t, "List") }
func isSet(t reflect.Type) bool       { return genericName(t, "Set") }

func genericName(t reflect.Type, name string) bool {
	return t.PkgPath() == "github.com/itstarsun/go-thrift/thrift" && strings.HasPrefix(t.Name(), name+"[")
}

func wireType(t reflect.Type) wtype {
	switch t.Kind() {
	case reflect.Bool:
		return thriftwire.Bool
	case reflect.Int8, reflect.Uint8:
		return thriftwire.Byte
	case reflect.Int16, reflect.Uint16:
		return thriftwire.I16
	case reflect.Int32, reflect.Uint32:
		return thriftwire.I32
	case reflect.Int64, reflect.Uint64:
		return thriftwire.I64
	case reflect.Float32, reflect.Float64:
		return thriftwire.Double
	case reflect.String:
		return thriftwire.String
	case reflect.Struct:
		return thriftwire.Struct
	case reflect.Map:
		return thriftwire.Map
	case reflect.Array:
		if t == typeOf[[16]byte]() {
			return thriftwire.UUID
		}
	case reflect.Slice:
		switch {
		case isSet(t):
			return thriftwire.Set
		case genericName(t, "List"):
			return thriftwire.List
		case t.AssignableTo(typeOf[[]byte]()):
			return thriftwire.String
		}
		return thriftwire.List
	case reflect.Pointer:
		return wireType(t.Elem())
	}
	return thriftwire.Stop
}

type zeroer interface{ IsZero() bool }

var zeroerType = typeOf[zeroer]()

func refIsZero(v reflect.Value) bool {
	t := v.Type()
	switch {
	case t.Kind() == reflect.Pointer && t.Implements(zeroerType):
		return v.IsNil() || v.Interface().(zeroer).IsZero()
	case t.Implements(zeroerType):
		return v.Interface().(zeroer).IsZero()
	case reflect.PointerTo(t).Implements(zeroerType):
		p := reflect.New(t)
		p.Elem().Set(v)
		return p.Interface().(zeroer).IsZero()
	}
	return v.IsZero()
}

func toW(v reflect.Value) *W {
	t := v.Type()
	w := &W{T: wireType(t)}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.I = 1
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.I = v.Int()
	case reflect.Uint8:
		w.I = int64(int8(v.Uint()))
	case reflect.Uint16:
		w.I = int64(int16(v.Uint()))
	case reflect.Uint32:
		w.I = int64(int32(v.Uint()))
	case reflect.Uint64:
		w.I = int64(v.Uint())
	case reflect.Float32, reflect.Float64:
		w.D = v.Float()
	case reflect.String:
		w.S = v.String()
	case reflect.Array:
		reflect.Copy(reflect.ValueOf(&w.U).Elem(), v)
	case reflect.Pointer:
		if v.IsNil() {
			return toW(reflect.New(t.Elem()).Elem())
		}
		return toW(v.Elem())
	case reflect.Slice:
		if w.T == thriftwire.String {
			w.S = string(v.Bytes())
			break
		}
		w.VT = wireType(t.Elem())
		for i := range v.Len() {
			w.E = append(w.E, toW(v.Index(i)))
		}
	case reflect.Map:
		w.KT, w.VT = wireType(t.Key()), wireType(t.Elem())
		for it := v.MapRange(); it.Next(); {
			w.K = append(w.K, toW(it.Key()))
			w.V = append(w.V, toW(it.Value()))
		}
		w.sortMap()
	case reflect.Struct:
		for _, f := range refFields(t) {
			fv := v.Field(f.index)
			if !f.required && refIsZero(fv) {
				continue
			}
			w.F = append(w.F, WF{f.id, toW(fv)})
		}
	default:
		panic("toW: " + t.String())
	}
	return w
}

func (w *W) sortMap() {
	if len(w.K) < 2 {
		return
	}
	type kv struct {
		s    string
		k, v *W
	}
	kvs := make([]kv, len(w.K))
	for i := range w.K {
		kvs[i] = kv{w.K[i].key(), w.K[i], w.V[i]}
	}
	sort.SliceStable(kvs, func(i, j int) bool { return kvs[i].s < kvs[j].s })
	for i := range kvs {
		w.K[i], w.V[i] = kvs[i].k, kvs[i].v
	}
}

func (w *W) key() string {
	var sb strings.Builder
	w.print(&sb, 1<<30)
	return sb.String()
}

// String renders a W for messages, shortened.
func (w *W) String() string {
	var sb strings.Builder
	w.print(&sb, 300)
	s := sb.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (w *W) print(sb *strings.Builder, limit int) {
	if sb.Len() > limit {
		sb.WriteString("...")
		return
	}
	switch w.T {
	case thriftwire.Bool, thriftwire.Byte, thriftwire.I16, thriftwire.I32, thriftwire.I64:
		fmt.Fprintf(sb, "%d:%d", w.T, w.I)
	case thriftwire.Double:
		fmt.Fprintf(sb, "d%x", math.Float64bits(w.D))
	case thriftwire.String:
		s := w.S
		if limit < 1<<20 && len(s) > 24 {
			fmt.Fprintf(sb, "str(%d)", len(s))
		} else {
			fmt.Fprintf(sb, "%q", s)
		}
	case thriftwire.UUID:
		fmt.Fprintf(sb, "u%x", w.U)
	case thriftwire.Struct:
		sb.WriteString("{")
		for _, f := range sortedFields(w.F) {
			fmt.Fprintf(sb, "%d=", f.ID)
			f.V.print(sb, limit)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case thriftwire.Map:
		if len(w.K) == 0 { // types of empty containers do not matter
			sb.WriteString("map{}")
			return
		}
		w.sortMap()
		fmt.Fprintf(sb, "map[%d]%d{", w.KT, w.VT)
		for i := range w.K {
			w.K[i].print(sb, limit)
			sb.WriteString("->")
			w.V[i].print(sb, limit)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case thriftwire.Set, thriftwire.List:
		if len(w.E) == 0 {
			fmt.Fprintf(sb, "%d<>[]", w.T)
			return
		}
		fmt.Fprintf(sb, "%d<%d>[", w.T, w.VT)
		for _, e := range w.E {
			e.print(sb, limit)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	default:
		fmt.Fprintf(sb, "?%d", w.T)
	}
}

// checkNames reports where the names in w, a value of type t, are not those of the Go struct and its fields.
func checkNames(w *W, t reflect.Type) string {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	switch w.T {
	case thriftwire.Struct:
		if w.N != t.Name() {
			return fmt.Sprintf("struct %v is named %q", t, w.N)
		}
		byID := map[int16]int{}
		for _, f := range refFields(t) {
			byID[f.id] = f.index
		}
		for i, f := range w.F {
			sf := t.Field(byID[f.ID])
			if w.FN[i] != sf.Name {
				return fmt.Sprintf("field %d of %v, %s, is named %q", f.ID, t, sf.Name, w.FN[i])
			}
			if d := checkNames(f.V, sf.Type); d != "" {
				return d
			}
		}
	case thriftwire.Map:
		for i := range w.K {
			if d := checkNames(w.K[i], t.Key()) + checkNames(w.V[i], t.Elem()); d != "" {
				return d
			}
		}
	case thriftwire.Set, thriftwire.List:
		for _, e := range w.E {
			if d := checkNames(e, t.Elem()); d != "" {
				return d
			}
		}
	}
	return ""
}

func validType(t wtype) bool {
	for _, v := range wireTypes {
		if t == v {
			return true
		}
	}
	return false
}

func eqFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

// diffW explains the first difference, or returns "". Maps are unordered; element types of empty
// containers do not matter.
func diffW(got, want *W) string { return diffWp(got, want) }

func diffWp(got, want *W) string {
	if got.T != want.T {
		return fmt.Sprintf(": type %v, want %v", got.T, want.T)
	}
	switch want.T {
	case thriftwire.Double:
		if !eqFloat(got.D, want.D) {
			return fmt.Sprintf(": %v, want %v", got.D, want.D)
		}
	case thriftwire.String:
		if got.S != want.S {
			return fmt.Sprintf(": string %s, want %s", brief(got.S), brief(want.S))
		}
	case thriftwire.UUID:
		if got.U != want.U {
			return fmt.Sprintf(": uuid %x, want %x", got.U, want.U)
		}
	case thriftwire.Struct:
		if len(got.F) != len(want.F) {
			return fmt.Sprintf(": %d fields %s, want %d %s", len(got.F), clip(got.String(), 300), len(want.F), clip(want.String(), 300))
		}
		g, w := sortedFields(got.F), sortedFields(want.F)
		for i := range w {
			if g[i].ID != w[i].ID {
				return fmt.Sprintf(": field %d, want %d", g[i].ID, w[i].ID)
			}
			if d := diffWp(g[i].V, w[i].V); d != "" {
				return fmt.Sprintf(".%d%s", w[i].ID, d)
			}
		}
	case thriftwire.Map:
		if len(got.K) != len(want.K) {
			return fmt.Sprintf(": map of %d, want %d", len(got.K), len(want.K))
		}
		if len(want.K) == 0 {
			return ""
		}
		if got.KT != want.KT || got.VT != want.VT {
			return fmt.Sprintf(": map[%v]%v, want map[%v]%v", got.KT, got.VT, want.KT, want.VT)
		}
		got.sortMap()
		want.sortMap()
		for i := range want.K {
			if d := diffWp(got.K[i], want.K[i]); d != "" {
				return fmt.Sprintf("[key %d]%s", i, d)
			}
			if d := diffWp(got.V[i], want.V[i]); d != "" {
				return fmt.Sprintf("[%s]%s", clip(want.K[i].String(), 40), d)
			}
		}
	case thriftwire.Set, thriftwire.List:
		if len(got.E) != len(want.E) {
			return fmt.Sprintf(": %d elements, want %d", len(got.E), len(want.E))
		}
		if len(want.E) > 0 && got.VT != want.VT {
			return fmt.Sprintf(": elements of %v, want %v", got.VT, want.VT)
		}
		for i := range want.E {
			if d := diffWp(got.E[i], want.E[i]); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	default:
		if got.I != want.I {
			return fmt.Sprintf(": %v %d, want %d", want.T, got.I, want.I)
		}
	}
	return ""
}

func sortedFields(f []WF) []WF {
	if sort.SliceIsSorted(f, func(i, j int) bool { return f[i].ID < f[j].ID }) {
		return f
	}
	f = append([]WF(nil), f...)
	sort.SliceStable(f, func(i, j int) bool { return f[i].ID < f[j].ID })
	return f
}

func brief(s string) string {
	if len(s) <= 40 {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
}

var errMismatch = errors.New("wire type differs from declared type")

// fromW is what Unmarshal means: it updates v with what w says. The destination must not be shared.
func fromW(w *W, v reflect.Value) error {
	t := v.Type()
	if t.Kind() == reflect.Pointer {
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()))
		}
		return fromW(w, v.Elem())
	}
	if w.T != wireType(t) {
		return errMismatch
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(w.I != 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(w.I)
	case reflect.Uint8:
		v.SetUint(uint64(uint8(w.I)))
	case reflect.Uint16:
		v.SetUint(uint64(uint16(w.I)))
	case reflect.Uint32:
		v.SetUint(uint64(uint32(w.I)))
	case reflect.Uint64:
		v.SetUint(uint64(w.I))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(w.D)
	case reflect.String:
		v.SetString(w.S)
	case reflect.Array:
		reflect.Copy(v, reflect.ValueOf(w.U))
	case reflect.Slice:
		if w.T == thriftwire.String {
			v.SetBytes([]byte(w.S))
			break
		}
		v.Set(reflect.MakeSlice(t, len(w.E), len(w.E)))
		for i, e := range w.E {
			if err := fromW(e, v.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Map:
		if len(w.K) > 0 && v.IsNil() {
			v.Set(reflect.MakeMap(t))
		}
		for i := range w.K {
			k := reflect.New(t.Key()).Elem()
			if err := fromW(w.K[i], k); err != nil {
				return err
			}
			e := reflect.New(t.Elem()).Elem()
			if old := v.MapIndex(k); old.IsValid() {
				e.Set(old)
			}
			err := fromW(w.V[i], e)
			v.SetMapIndex(k, e)
			if err != nil {
				return err
			}
		}
	case reflect.Struct:
		byID := refFields(t)
		for _, f := range w.F {
			for _, rf := range byID {
				if rf.id == f.ID {
					if err := fromW(f.V, v.Field(rf.index)); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

// expected is the value a fresh destination of v's type holds after decoding v.
func expected(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	if err := fromW(toW(v), out); err != nil {
		panic(err)
	}
	return out
}

// diff explains the first difference between two Go values, or returns "": nil and empty containers are
// equal, floats compare by bits except that all NaNs are equal.
func diff(got, want reflect.Value) string { return diffp(got, want) }

func diffp(got, want reflect.Value) string {
	switch want.Kind() {
	case reflect.Bool:
		if got.Bool() != want.Bool() {
			return fmt.Sprintf(": %v, want %v", got.Bool(), want.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if got.Int() != want.Int() {
			return fmt.Sprintf(": %d, want %d", got.Int(), want.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if got.Uint() != want.Uint() {
			return fmt.Sprintf(": %d, want %d", got.Uint(), want.Uint())
		}
	case reflect.Float32, reflect.Float64:
		if !eqFloat(got.Float(), want.Float()) || got.Kind() == reflect.Float64 && math.Float64bits(got.Float()) != math.Float64bits(want.Float()) {
			return fmt.Sprintf(": %v, want %v", got.Float(), want.Float())
		}
	case reflect.String:
		if got.String() != want.String() {
			return fmt.Sprintf(": %s, want %s", brief(got.String()), brief(want.String()))
		}
	case reflect.Array:
		for i := range want.Len() {
			if d := diffp(got.Index(i), want.Index(i)); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case reflect.Pointer:
		if got.IsNil() != want.IsNil() {
			return fmt.Sprintf(": nil pointer is %v, want %v", got.IsNil(), want.IsNil())
		}
		if !want.IsNil() && got.Pointer() != want.Pointer() {
			if d := diffp(got.Elem(), want.Elem()); d != "" {
				return "*" + d
			}
		}
	case reflect.Slice:
		if got.Len() != want.Len() {
			return fmt.Sprintf(": length %d, want %d", got.Len(), want.Len())
		}
		if want.Type().Elem().Kind() == reflect.Uint8 {
			if g, w := string(got.Bytes()), string(want.Bytes()); g != w {
				return fmt.Sprintf(": %s, want %s", brief(g), brief(w))
			}
			break
		}
		for i := range want.Len() {
			if d := diffp(got.Index(i), want.Index(i)); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case reflect.Map:
		if got.Len() != want.Len() {
			return fmt.Sprintf(": map of %d, want %d", got.Len(), want.Len())
		}
		for it := want.MapRange(); it.Next(); {
			g := got.MapIndex(it.Key())
			if !g.IsValid() {
				return fmt.Sprintf(": missing key %s", clip(fmt.Sprint(it.Key()), 40))
			}
			if d := diffp(g, it.Value()); d != "" {
				return fmt.Sprintf("[%s]%s", clip(fmt.Sprint(it.Key()), 40), d)
			}
		}
	case reflect.Struct:
		for i := range want.NumField() {
			if d := diffp(got.Field(i), want.Field(i)); d != "" {
				return "." + want.Type().Field(i).Name + d
			}
		}
	case reflect.Interface:
		if got.IsNil() != want.IsNil() {
			return ": nil interface differs"
		}
	}
	return ""
}

// partDiff checks that got is a part of want, or zero: what a decode that failed may leave in a fresh
// destination.
func partDiff(got, want reflect.Value) string {
	if got.IsZero() {
		return ""
	}
	switch want.Kind() {
	case reflect.Pointer:
		if want.IsNil() {
			return ": pointer where nothing was sent"
		}
		if d := partDiff(got.Elem(), want.Elem()); d != "" {
			return "*" + d
		}
	case reflect.String:
		if want.String() != got.String() {
			return fmt.Sprintf(": %s instead of %s", brief(got.String()), brief(want.String()))
		}
	case reflect.Array:
		for i := range want.Len() {
			if d := partDiff(got.Index(i), want.Index(i)); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case reflect.Slice:
		if got.Len() > want.Len() {
			return fmt.Sprintf(": length %d, of %d sent", got.Len(), want.Len())
		}
		if got.Len() < want.Len() && wireType(got.Type()) == thriftwire.String {
			return fmt.Sprintf(": %d bytes, of %d sent", got.Len(), want.Len())
		}
		for i := range got.Len() {
			if d := partDiff(got.Index(i), want.Index(i)); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case reflect.Map:
		for it := got.MapRange(); it.Next(); {
			w := want.MapIndex(it.Key())
			if !w.IsValid() {
				return fmt.Sprintf(": key %s was not sent", clip(fmt.Sprint(it.Key()), 40))
			}
			if d := partDiff(it.Value(), w); d != "" {
				return fmt.Sprintf("[%s]%s", clip(fmt.Sprint(it.Key()), 40), d)
			}
		}
	case reflect.Struct:
		for i := range want.NumField() {
			if d := partDiff(got.Field(i), want.Field(i)); d != "" {
				return "." + want.Type().Field(i).Name + d
			}
		}
	default:
		return diffp(got, want)
	}
	return ""
}

// clone copies a value deeply, without spare capacity.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	cloneTo(out, v)
	return out
}

func cloneTo(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Pointer:
		if !src.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
			cloneTo(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
			if src.Type().Elem().Kind() == reflect.Uint8 {
				reflect.Copy(dst, src)
				return
			}
			for i := range src.Len() {
				cloneTo(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Map:
		if !src.IsNil() {
			dst.Set(reflect.MakeMap(src.Type()))
			for it := src.MapRange(); it.Next(); {
				dst.SetMapIndex(clone(it.Key()), clone(it.Value()))
			}
		}
	case reflect.Struct:
		dst.Set(src) // unexported and ignored fields
		for i := range src.NumField() {
			if dst.Field(i).CanSet() {
				dst.Field(i).SetZero()
				cloneTo(dst.Field(i), src.Field(i))
			}
		}
	default:
		dst.Set(src)
	}
}
