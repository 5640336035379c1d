//go:build go1.25

package simrt

import (
	"bufio"
	"cmp"
	"io"
	"math"
	"reflect"
	"sort"
)

// BufReader replaces bufio.NewReader in the code under test.
func BufReader(r io.Reader) *bufio.Reader {
	if cur != nil && cur.BufSize > 0 {
		return bufio.NewReaderSize(r, cur.BufSize)
	}
	return bufio.NewReader(r)
}

// BufWriter replaces bufio.NewWriter in the code under test.
func BufWriter(w io.Writer) *bufio.Writer {
	if cur != nil && cur.BufSize > 0 {
		return bufio.NewWriterSize(w, cur.BufSize)
	}
	return bufio.NewWriter(w)
}

type rmap interface {
	MapRange() *reflect.MapIter
	Len() int
}

// MapIter replaces reflect.MapIter; the simulator decides the order.
type MapIter struct {
	k, v []reflect.Value
	i    int
}

func MapRange(m rmap) *MapIter {
	it := &MapIter{i: -1}
	it.load(m)
	return it
}

func (it *MapIter) load(m rmap) {
	n := m.Len()
	if n == 0 {
		return
	}
	type kv struct{ k, v reflect.Value }
	kvs := make([]kv, 0, n)
	for r := m.MapRange(); r.Next(); {
		kvs = append(kvs, kv{r.Key(), r.Value()})
	}
	sort.SliceStable(kvs, func(i, j int) bool { return compare(kvs[i].k, kvs[j].k) < 0 })
	for _, i := range perm(len(kvs)) {
		it.k = append(it.k, kvs[i].k)
		it.v = append(it.v, kvs[i].v)
	}
}

func (it *MapIter) Next() bool           { it.i++; return it.i < len(it.k) }
func (it *MapIter) Key() reflect.Value   { return it.k[it.i] }
func (it *MapIter) Value() reflect.Value { return it.v[it.i] }
func (it *MapIter) Reset(v reflect.Value) {
	*it = MapIter{i: -1}
	if v.IsValid() {
		it.load(v)
	}
}

type setter interface{ Set(reflect.Value) }

func SetIterKey(v setter, it *MapIter)   { v.Set(it.Key()) }
func SetIterValue(v setter, it *MapIter) { v.Set(it.Value()) }

// MapKeys replaces reflect.Value.MapKeys.
func MapKeys(m rmap) []reflect.Value {
	it := MapRange(m)
	return it.k
}

// KeysOf returns the keys of a map in the order the simulator decides.
func KeysOf[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.SliceStable(keys, func(i, j int) bool {
		return compare(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem()) < 0
	})
	out := make([]K, 0, len(m))
	for _, i := range perm(len(keys)) {
		out = append(out, keys[i])
	}
	return out
}

func perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if cur == nil || n < 2 {
		return p
	}
	st := cur.Src.Stream("maporder")
	switch st.N(4) {
	case 0:
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	default:
		for i := n - 1; i > 0; i-- {
			j := i - st.N(i+1)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// compare orders values of one type by content.
func compare(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Bool:
		x, y := a.Bool(), b.Bool()
		switch {
		case x == y:
			return 0
		case y:
			return -1
		}
		return 1
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Float32, reflect.Float64:
		if c := cmp.Compare(a.Float(), b.Float()); c != 0 {
			return c
		}
		return cmp.Compare(math.Float64bits(a.Float()), math.Float64bits(b.Float()))
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Array:
		for i := range a.Len() {
			if c := compare(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
	case reflect.Struct:
		for i := range a.NumField() {
			if c := compare(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
	case reflect.Pointer, reflect.Interface:
		switch {
		case a.IsNil() || b.IsNil():
			return cmp.Compare(btoi(!a.IsNil()), btoi(!b.IsNil()))
		case a.Elem().Type() != b.Elem().Type():
			return cmp.Compare(a.Elem().Type().String(), b.Elem().Type().String())
		}
		return compare(a.Elem(), b.Elem())
	}
	return 0
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// GoStmt replaces go statements in the code under test.
func GoStmt(f func()) {
	if s := Cur(); s != nil {
		s.Go("goroutine", f)
		Yield()
		return
	}
	go f()
}
