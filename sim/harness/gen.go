//go:build go1.25

package main

import (
	"math"
	"reflect"
	"strconv"

	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// valueGen fills Go values. left bounds the size of one value, in rough units of encoded bytes.
type valueGen struct {
	st      *simrt.Stream
	left    int
	bufSize int
	bigOK   bool // may make strings around the buffer size and beyond
	mapMax  int  // -1: no bound
	tiny    bool
	deep    int // levels of nesting still to make along one path through the value
	huge    int // if not 0, how large to make the next container, or how long the next string
	hugeness
}

// Sizes at and beyond what an implementation may treat specially, or count in too few bits.
var hugeCounts = []int{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10000,
	16383, 16384, 20000, 32767, 32768, 40000, 65535, 65536, 65537, 70000, 100000}
var hugeLengths = []int{1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 100_000, 1 << 17, 1<<18 + 3, 1 << 19, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + 1, 1 << 21, 1<<22 + 1}

// hugeness is how common huge values are in a run: mostly there are none, but where there is one there are others.
type hugeness struct {
	drawn bool
	in3   int
}

// draw draws whether a value has something huge in it, and how huge.
func (h *hugeness) draw(st *simrt.Stream) int {
	if !h.drawn {
		h.drawn = true
		if st.N(90) == 89 {
			h.in3 = 1 + st.N(2)
		}
	}
	if h.in3 == 0 || st.N(3) >= h.in3 {
		return 0
	}
	return 1 + st.N(1000)
}

// next is what comes after one huge thing in a value.
func nextHuge(st *simrt.Stream) int {
	if st.N(3) < 2 {
		return 0
	}
	return 1 + st.N(1000)
}

// cheap fills v, the i-th of many, without drawing.
func cheap(v reflect.Value, i int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(i%3 == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(reflect.ValueOf(int64(i)).Convert(t).Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(reflect.ValueOf(int64(i)).Convert(t).Uint())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(i))
	case reflect.String:
		v.SetString(strconv.Itoa(i))
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && t.Len() >= 4 {
			for j := range 4 {
				v.Index(j).SetUint(uint64(byte(i >> (8 * j))))
			}
		}
	case reflect.Pointer:
		if !reaches(t.Elem(), t) {
			v.Set(reflect.New(t.Elem()))
			cheap(v.Elem(), i)
		}
	case reflect.Slice:
		if t.AssignableTo(typeOf[[]byte]()) && !isSetOrList(t) {
			v.SetBytes([]byte(strconv.Itoa(i)))
		}
	case reflect.Struct:
		for j := range t.NumField() {
			if tag := t.Field(j).Tag.Get("thrift"); tag != "" && tag != "-" && v.Field(j).CanSet() && scalar(t.Field(j).Type) {
				cheap(v.Field(j), i)
				return
			}
		}
	}
}

func scalar(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice:
		return t.AssignableTo(typeOf[[]byte]()) && !isSetOrList(t)
	case reflect.Map, reflect.Struct, reflect.Pointer:
		return false
	}
	return true
}

// takeHuge is the size of the container at hand, if that is to be huge.
func (g *valueGen) takeHuge(els ...reflect.Type) int {
	if g.huge == 0 {
		return 0
	}
	n := hugeCounts[g.huge%len(hugeCounts)]
	for _, t := range els {
		if !scalar(t) {
			n = min(n, 5000)
			if g.st.N(3) > 0 {
				return 0
			}
		}
	}
	g.huge = nextHuge(g.st)
	return n
}

func newValueGen(st *simrt.Stream, bufSize int) *valueGen {
	return &valueGen{st: st, bufSize: bufSize, mapMax: -1}
}

func (g *valueGen) value(t reflect.Type) reflect.Value {
	g.left = []int{300, 60, 1500, 6}[g.st.Pick(6, 3, 1, 2)]
	if g.tiny {
		g.left = min(g.left, 60)
	}
	g.bigOK = !g.tiny && g.st.N(8) == 7
	g.huge = 0
	if !g.tiny {
		g.huge = g.hugeness.draw(g.st)
	}
	g.deep = 0
	if !g.tiny && g.st.N(40) == 39 {
		g.deep = deepLevels(g.st)
		g.left = max(g.left, 2*g.deep)
	}
	v := reflect.New(t).Elem()
	if g.deep > 0 {
		g.fillDeep(v, 0)
	} else {
		g.fill(v, 0)
	}
	return v
}

// deepLevels draws how deep a deep value is.
func deepLevels(st *simrt.Stream) int {
	return []int{8, 14, 17, 31, 34, 63, 66, 130, 258, 520, 1030, 2600}[st.Pick(6, 6, 6, 6, 6, 4, 4, 2, 2, 1, 1, 1)]
}

var reachCache = map[[2]reflect.Type]bool{}

// reaches reports whether a value of type t can hold one of struct type to.
func reaches(t, to reflect.Type) bool {
	k := [2]reflect.Type{t, to}
	r, ok := reachCache[k]
	if !ok {
		r = reach(t, to, map[reflect.Type]bool{})
		reachCache[k] = r
	}
	return r
}

func reach(t, to reflect.Type, seen map[reflect.Type]bool) bool {
	if t == to {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice:
		return reach(t.Elem(), to, seen)
	case reflect.Map:
		return reach(t.Elem(), to, seen)
	case reflect.Struct:
		for i := range t.NumField() {
			if tag := t.Field(i).Tag.Get("thrift"); tag != "" && tag != "-" && reach(t.Field(i).Type, to, seen) {
				return true
			}
		}
	}
	return false
}

// deepField picks a field through which struct type t holds itself again, or -1.
func (g *valueGen) deepField(t reflect.Type) int {
	var fs []int
	for i := range t.NumField() {
		if tag := t.Field(i).Tag.Get("thrift"); tag != "" && tag != "-" && t.Field(i).IsExported() && reaches(t.Field(i).Type, t) {
			fs = append(fs, i)
		}
	}
	if len(fs) == 0 {
		return -1
	}
	return fs[g.st.N(len(fs))]
}

// deeper reports whether the deep path goes on into a container of type t.
func (g *valueGen) deeper(t reflect.Type) bool {
	if !reaches(t.Elem(), t) {
		return true
	}
	g.deep--
	return g.deep > 0
}

// fillDeep fills v, which is on the deep path.
func (g *valueGen) fillDeep(v reflect.Value, depth int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(t.Elem()))
		g.fillDeep(v.Elem(), depth)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			g.fill(v, depth)
			return
		}
		if !g.deeper(t) {
			g.fill(v, depth+4)
			return
		}
		n := 1 + g.st.Pick(4, 1)
		v.Set(reflect.MakeSlice(t, n, n))
		g.fillDeep(v.Index(g.st.N(n)), depth)
	case reflect.Map:
		if !g.deeper(t) {
			g.fill(v, depth+4)
			return
		}
		v.Set(reflect.MakeMap(t))
		k := reflect.New(t.Key()).Elem()
		g.fill(k, depth)
		fixKey(k)
		e := reflect.New(t.Elem()).Elem()
		g.fillDeep(e, depth)
		v.SetMapIndex(k, e)
	case reflect.Struct:
		i := -1
		if g.deep > 0 {
			i = g.deepField(t)
		}
		if i < 0 {
			g.deep = 0
			g.fill(v, depth)
			return
		}
		g.deep--
		for j := range t.NumField() {
			if f := v.Field(j); j == i {
				g.fillDeep(f, depth+1)
			} else if tag := t.Field(j).Tag.Get("thrift"); tag != "" && tag != "-" && f.CanSet() && g.st.N(3) == 0 {
				d := g.deep
				g.deep = 0
				g.fill(f, depth+4)
				g.deep = d
			}
		}
	default:
		g.fill(v, depth)
	}
}

var intBounds = []int64{0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, -8192, -8193,
	32767, -32768, 32768, 65535, 1<<20 - 1, 1 << 20, 1<<27 - 1, 1 << 27, 1<<31 - 1, -1 << 31, 1 << 31, 1<<32 - 1, 1 << 32, 1<<34 - 1,
	1 << 41, 1<<48 + 5, 1 << 55, 1 << 56, 1<<62 - 1, 1 << 62, math.MaxInt64, math.MinInt64}

func genInt(st *simrt.Stream) int64 {
	switch st.Pick(4, 3, 1) {
	case 0:
		return int64(st.N(100))
	case 1:
		return intBounds[st.N(len(intBounds))]
	}
	return int64(st.U64())
}

func genFloat(st *simrt.Stream) float64 {
	switch st.Pick(3, 3, 1) {
	case 0:
		return float64(st.N(1000)) / 8
	case 1:
		fs := []float64{0, 1, -1, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0xfff4000000000123), math.MaxFloat64,
			math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Pi, 1e-310}
		return fs[st.N(len(fs))]
	}
	return math.Float64frombits(st.U64())
}

// pattern makes n bytes that differ from place to place.
func pattern(seed, n int) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	if seed%3 == 0 {
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
	}
	return b
}

func (g *valueGen) strLen() int {
	switch g.st.Pick(6, 4, 2, 1, 1) {
	case 0:
		return g.st.N(6)
	case 1:
		return g.st.N(30)
	case 2:
		return []int{127, 128, 15, 16, 63, 64, 65, 129, 255, 256}[g.st.N(10)]
	case 3:
		if g.bigOK {
			return max(0, g.bufSize*g.st.Range(1, 2)+g.st.Range(-12, 6))
		}
	case 4:
		if g.bigOK {
			return []int{16383, 16384, 5000, 20000, 70000}[g.st.Pick(3, 3, 3, 2, 1)]
		}
	}
	return g.st.N(200)
}

func (g *valueGen) bytes() []byte {
	if g.huge > 0 {
		n := hugeLengths[g.huge%len(hugeLengths)]
		g.huge = nextHuge(g.st)
		return pattern(g.st.N(1000), n)
	}
	n := g.strLen()
	if n > g.left && !(g.bigOK && n > 250) {
		n = max(0, min(n, g.left))
	}
	if n > 250 {
		g.bigOK = false
	}
	g.left -= n + 2
	return pattern(g.st.N(1000), n)
}

func (g *valueGen) count(unit int) int {
	n := 0
	switch g.st.Pick(4, 3, 2, 1) {
	case 0:
		n = g.st.N(4)
	case 1:
		n = g.st.N(9)
	case 2:
		n = []int{14, 15, 16, 17}[g.st.N(4)]
	case 3:
		n = []int{127, 128, 60, 200}[g.st.N(4)]
	}
	return min(n, max(0, g.left/unit))
}

func (g *valueGen) fill(v reflect.Value, depth int) {
	t := v.Type()
	g.left--
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.st.N(2) == 1)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(reflect.ValueOf(genInt(g.st)).Convert(t).Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(reflect.ValueOf(genInt(g.st)).Convert(t).Uint())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(genFloat(g.st))
	case reflect.String:
		v.SetString(string(g.bytes()))
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			if g.st.N(4) > 0 {
				reflect.Copy(v, reflect.ValueOf(pattern(1+g.st.N(1000), t.Len())).Convert(reflect.SliceOf(t.Elem())))
			}
			g.left -= t.Len()
		}
	case reflect.Pointer:
		n := 4
		if depth > 5 {
			n = 1
		}
		if g.left > 0 && g.st.N(n) > 0 {
			v.Set(reflect.New(t.Elem()))
			g.fill(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if t.AssignableTo(typeOf[[]byte]()) && !isSetOrList(t) {
			if g.st.N(4) > 0 {
				v.SetBytes(g.bytes())
			}
			return
		}
		if n := g.takeHuge(t.Elem()); n > 0 {
			v.Set(reflect.MakeSlice(t, n, n))
			for i := range n {
				cheap(v.Index(i), i)
			}
			return
		}
		if g.left <= 0 {
			return
		}
		unit := 2
		switch t.Elem().Kind() {
		case reflect.Struct, reflect.Pointer, reflect.Map, reflect.Slice:
			unit = 6 + depth*4
		}
		n := g.count(unit)
		if n == 0 {
			if g.st.N(2) == 1 {
				v.Set(reflect.MakeSlice(t, 0, 0))
			}
			return
		}
		v.Set(reflect.MakeSlice(t, n, n+g.st.N(3)))
		for i := range n {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		if g.mapMax < 0 {
			if n := g.takeHuge(t.Key(), t.Elem()); n > 0 {
				v.Set(reflect.MakeMap(t))
				for i := range n {
					k := reflect.New(t.Key()).Elem()
					cheap(k, i)
					e := reflect.New(t.Elem()).Elem()
					cheap(e, i+7)
					v.SetMapIndex(k, e)
				}
				return
			}
		}
		if g.left <= 0 {
			return
		}
		n := g.count(6 + depth*4)
		if g.mapMax >= 0 {
			n = min(n, g.mapMax)
		}
		if n == 0 {
			if g.st.N(2) == 1 {
				v.Set(reflect.MakeMap(t))
			}
			return
		}
		v.Set(reflect.MakeMap(t))
		for range n {
			k := reflect.New(t.Key()).Elem()
			g.fill(k, depth+1)
			fixKey(k)
			e := reflect.New(t.Elem()).Elem()
			g.fill(e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := range t.NumField() {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			if tag := t.Field(i).Tag.Get("thrift"); tag == "" || tag == "-" {
				continue
			}
			// Leave some fields zero, and most fields of deep structs.
			if g.st.N(8) == 0 || depth > 3 && g.st.N(3) > 0 || g.left <= 0 && g.st.N(4) > 0 {
				continue
			}
			g.fill(f, depth+1)
		}
	}
}

// fixKey keeps floats usable as map keys.
func fixKey(k reflect.Value) {
	switch k.Kind() {
	case reflect.Float32, reflect.Float64:
		if f := k.Float(); f != f || f == 0 {
			k.SetFloat(0)
		}
	}
}
