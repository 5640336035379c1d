//go:build go1.25

package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// The pool of Go types messages are made of. Recursive, named and generic types cannot be made by package
// reflect, so they are declared here; everything else is also generated (randType).

type (
	MyBool  bool
	MyI8    int8
	MyU16   uint16
	MyI32   int32
	MyU64   uint64
	MyF32   float32
	MyF64   float64
	MyStr   string
	MyBytes []byte
	MyU8    uint8
	MyU8s   []MyU8
	MyList  []int32
	MyMap   map[MyStr]MyI32
	MyPtr   *Leaf
)

type Empty struct{}

type Leaf struct {
	I int32  `thrift:"1"`
	S string `thrift:"2"`
}

type Key struct {
	A int16    `thrift:"1"`
	B string   `thrift:"-2"`
	C bool     `thrift:"3,required"`
	U [16]byte `thrift:"20"`
}

type Scalars struct {
	Bool bool     `thrift:"1"`
	I8   int8     `thrift:"2"`
	I16  int16    `thrift:"3"`
	I32  int32    `thrift:"4"`
	I64  int64    `thrift:"5"`
	U8   uint8    `thrift:"6"`
	U16  uint16   `thrift:"7"`
	U32  uint32   `thrift:"8"`
	U64  uint64   `thrift:"9"`
	F32  float32  `thrift:"10"`
	F64  float64  `thrift:"11"`
	Str  string   `thrift:"12"`
	Bin  []byte   `thrift:"13"`
	UUID [16]byte `thrift:"14"`
}

type Required struct {
	Bool bool              `thrift:"1,required"`
	I16  int16             `thrift:"2,required"`
	F64  float64           `thrift:"3,required"`
	Str  string            `thrift:"4,required"`
	Bin  []byte            `thrift:"5,required"`
	UUID [16]byte          `thrift:"6,required"`
	Leaf *Leaf             `thrift:"7,required"`
	List []string          `thrift:"8,required"`
	Set  thrift.Set[bool]  `thrift:"9,required"`
	Map  map[int32]string  `thrift:"10,required"`
	E    Empty             `thrift:"11,required"`
	LL   [][]bool          `thrift:"12,required"`
	PP   **int32           `thrift:"13,required"`
	PB   *bool             `thrift:"14,required"`
	PS   *[]byte           `thrift:"15,required"`
	ML   map[bool][]string `thrift:"16,required"`
}

type Bools struct {
	A bool             `thrift:"1"`
	B bool             `thrift:"2,required"`
	C *bool            `thrift:"3"`
	D MyBool           `thrift:"40,required"`
	E []bool           `thrift:"41"`
	F map[bool]bool    `thrift:"-1"`
	G *Bools           `thrift:"56"`
	H bool             `thrift:"71,required"`
	I thrift.Set[bool] `thrift:"72"`
	J bool             `thrift:"73,required"`
}

type Node struct {
	ID    int64            `thrift:"1"`
	Next  *Node            `thrift:"2"`
	Kids  []*Node          `thrift:"3"`
	Named map[string]*Node `thrift:"4"`
	Flag  bool             `thrift:"5"`
	Vals  []Node           `thrift:"21"`
	Tail  string           `thrift:"22"`
}

type MutA struct {
	X  int32           `thrift:"1"`
	B  *MutB           `thrift:"2"`
	Bs []MutB          `thrift:"3"`
	S  string          `thrift:"4"`
	M  map[int16]*MutB `thrift:"5"`
}

type MutB struct {
	Y  bool              `thrift:"1,required"`
	A  *MutA             `thrift:"5"`
	C  *MutC             `thrift:"6"`
	As thrift.List[MutA] `thrift:"7"`
}

type MutC struct {
	Z string            `thrift:"1"`
	A map[string]MutA   `thrift:"9"`
	B thrift.Set[*MutB] `thrift:"10"`
}

type Collections struct {
	L1 []int64                       `thrift:"1"`
	L2 thrift.List[byte]             `thrift:"2"`
	L3 []Leaf                        `thrift:"3"`
	L4 []*Leaf                       `thrift:"4"`
	L5 [][]string                    `thrift:"5"`
	L6 MyU8s                         `thrift:"6"`
	L7 [][]byte                      `thrift:"7"`
	S1 thrift.Set[string]            `thrift:"20"`
	S2 thrift.Set[Leaf]              `thrift:"21"`
	S3 thrift.Set[byte]              `thrift:"22"`
	S4 []thrift.Set[int16]           `thrift:"23"`
	M1 map[string]string             `thrift:"40"`
	M2 map[int64]Leaf                `thrift:"41"`
	M3 map[string][]byte             `thrift:"42"`
	M4 map[Key]*Leaf                 `thrift:"43"`
	M5 map[[16]byte]map[bool]float64 `thrift:"44"`
	M6 map[MyF64]thrift.Set[bool]    `thrift:"45"`
	M7 map[int8][]Leaf               `thrift:"46"`
	L8 []map[int32]bool              `thrift:"300"`
	L9 [][16]byte                    `thrift:"301"`
}

type Named struct {
	A MyBool  `thrift:"1"`
	B MyI8    `thrift:"2"`
	C MyU16   `thrift:"3"`
	D MyI32   `thrift:"4"`
	E MyU64   `thrift:"5"`
	F MyF32   `thrift:"6"`
	G MyStr   `thrift:"7"`
	H MyBytes `thrift:"8"`
	I MyList  `thrift:"9"`
	J MyMap   `thrift:"10"`
	K MyPtr   `thrift:"11"`
	L MyU8s   `thrift:"12"`
}

type IDs struct {
	Min  int32  `thrift:"-32768"`
	Neg  string `thrift:"-200"`
	N1   bool   `thrift:"-1"`
	Zero int8   `thrift:"0"`
	One  bool   `thrift:"1"`
	D15  int16  `thrift:"16"`
	D16  bool   `thrift:"32"`
	Far  Leaf   `thrift:"16000"`
	F15  bool   `thrift:"16015,required"`
	F16  *IDs   `thrift:"16031"`
	Max  string `thrift:"32767"`
}

// Order is declared out of ID order, with fields that are not part of the message between.
type Order struct {
	Z       string `thrift:"9"`
	skipped int
	Ignored string `thrift:"-"`
	A       int32  `thrift:"-3"`
	Y       *Order `thrift:"8"`
	B       bool   `thrift:"2,required"`
	hidden  []byte
	C       []Order `thrift:"3"`
}

// Types that define what counts as zero for an optional field.
type ZeroI int32

func (z ZeroI) IsZero() bool { return z == 7 }

type ZeroP struct {
	V int32  `thrift:"1"`
	W string `thrift:"2"`
}

func (z *ZeroP) IsZero() bool { return z == nil || z.V < 0 }

type ZeroL []string

func (z ZeroL) IsZero() bool { return len(z) == 0 }

type Zeroes struct {
	A ZeroI  `thrift:"1"`
	B ZeroP  `thrift:"2"`
	C *ZeroP `thrift:"3"`
	D ZeroL  `thrift:"4"`
	E ZeroI  `thrift:"5,required"`
	F *ZeroI `thrift:"6"`
	G ZeroL  `thrift:"7,required"`
}

type Pointers struct {
	A *int32             `thrift:"1"`
	B **string           `thrift:"2"`
	C *[]int16           `thrift:"3"`
	D *map[string]*int64 `thrift:"4"`
	E *Leaf              `thrift:"5"`
	F []*bool            `thrift:"6"`
	G *[16]byte          `thrift:"7"`
	H **Leaf             `thrift:"8"`
	I map[int32]*[]*Leaf `thrift:"9"`
	J ***Pointers        `thrift:"10"`
	K *Empty             `thrift:"11"`
	L *float32           `thrift:"12"`
	M *[]byte            `thrift:"13"`
}

type Wide struct {
	F0, F1 int32             `thrift:"-"`
	A1     int8              `thrift:"1"`
	A2     string            `thrift:"2"`
	A3     bool              `thrift:"4"`
	A4     int64             `thrift:"6"`
	A5     []int32           `thrift:"7"`
	A6     Leaf              `thrift:"8"`
	A7     float64           `thrift:"12"`
	A8     bool              `thrift:"27"`
	A9     bool              `thrift:"28"`
	A10    []byte            `thrift:"44"`
	A11    int16             `thrift:"60"`
	A12    uint32            `thrift:"61"`
	A13    *Wide             `thrift:"62"`
	A14    [16]byte          `thrift:"77"`
	A15    string            `thrift:"93"`
	A16    bool              `thrift:"108"`
	A17    bool              `thrift:"109,required"`
	A18    bool              `thrift:"110"`
	A19    map[string]int64  `thrift:"111"`
	A20    thrift.Set[int64] `thrift:"500"`
	A21    Empty             `thrift:"501,required"`
	A22    string            `thrift:"502"`
}

// Gen1 has many instantiations, hence many types whose first use can be raced.
type Gen1[T any] struct {
	V T            `thrift:"1,required"`
	N *Gen1[T]     `thrift:"2"`
	L []Gen1[T]    `thrift:"3"`
	M map[string]T `thrift:"4"`
}

// Types that are recursive without a struct in between.
type (
	RecL []RecL
	RecM map[string]RecM
	RecP []*RecP
	RecS []thrift.Set[RecS]
	RecA []RecB
	RecB map[int16]*RecA
)

type Rec struct {
	L RecL            `thrift:"1"`
	M RecM            `thrift:"2"`
	P *RecP           `thrift:"3"`
	S thrift.Set[Rec] `thrift:"4"`
	A RecA            `thrift:"5"`
	B bool            `thrift:"6"`
}

// Different types of one name.
func argsA() reflect.Type {
	type Args struct {
		A int32 `thrift:"1"`
		B bool  `thrift:"2"`
		C *Leaf `thrift:"3"`
	}
	return typeOf[Args]()
}

func argsB() reflect.Type {
	type Args struct {
		A string           `thrift:"1,required"`
		B map[string]int16 `thrift:"20"`
		C []Leaf           `thrift:"-3"`
	}
	return typeOf[Args]()
}

func argsC() reflect.Type {
	type Leaf []bool
	type Args struct {
		C Leaf         `thrift:"3"`
		A int32        `thrift:"2"`
		X Gen1[Leaf]   `thrift:"4"`
		Y []Gen1[Leaf] `thrift:"5"`
	}
	return typeOf[Args]()
}

func typeOf[T any]() reflect.Type { return reflect.TypeFor[T]() }

var structPool = []reflect.Type{
	typeOf[Leaf](), typeOf[Scalars](), typeOf[Bools](), typeOf[Required](), typeOf[Node](), typeOf[MutA](),
	typeOf[MutB](), typeOf[MutC](), typeOf[Collections](), typeOf[Named](), typeOf[IDs](), typeOf[Order](),
	typeOf[Zeroes](), typeOf[Pointers](), typeOf[Wide](), typeOf[Key](), typeOf[Empty](), typeOf[Rec](),
	argsA(), argsB(), argsC(),
	typeOf[Gen1[string]](), typeOf[Gen1[bool]](), typeOf[Gen1[[]byte]](), typeOf[Gen1[Leaf]](), typeOf[Gen1[*Node]](),
	typeOf[Gen1[[16]byte]](), typeOf[Gen1[int64]](), typeOf[Gen1[map[int16]string]](), typeOf[Gen1[thrift.Set[int32]]](),
}

var barePool = []reflect.Type{
	typeOf[bool](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](), typeOf[uint8](), typeOf[uint16](),
	typeOf[uint32](), typeOf[uint64](), typeOf[float32](), typeOf[float64](), typeOf[string](), typeOf[[]byte](),
	typeOf[[16]byte](), typeOf[[]string](), typeOf[[]bool](), typeOf[thrift.Set[bool]](), typeOf[thrift.List[byte]](),
	typeOf[map[string]int32](), typeOf[map[bool]bool](), typeOf[[][]byte](), typeOf[MyBytes](), typeOf[MyU8s](),
	typeOf[map[int32][]Leaf](), typeOf[*Leaf](), typeOf[[]*Node](), typeOf[map[Key][]string](), typeOf[**int64](),
	typeOf[RecL](), typeOf[RecM](), typeOf[RecP](), typeOf[RecS](), typeOf[RecA](), typeOf[RecB](),
}

var keyPool = []reflect.Type{
	typeOf[string](), typeOf[int32](), typeOf[bool](), typeOf[int64](), typeOf[int16](), typeOf[uint8](), typeOf[int8](),
	typeOf[MyStr](), typeOf[[16]byte](), typeOf[float64](), typeOf[Key](), typeOf[uint64](), typeOf[Leaf](),
}

// Types the library must reject, wholly or when the offending part is reached.
var rejectPool = []reflect.Type{
	typeOf[int](), typeOf[uint](), typeOf[complex64](), typeOf[chan int](), typeOf[any](), typeOf[[4]byte](),
	typeOf[[]int](), typeOf[map[int]string](), typeOf[map[string]any](), typeOf[*uintptr](), typeOf[func()](),
	typeOf[struct{ a int }](),
	typeOf[struct {
		A int32 `thrift:"x"`
	}](),
	typeOf[struct {
		A int32
	}](),
	typeOf[struct {
		A int32 `thrift:"1,required,required"`
	}](),
	typeOf[struct {
		A int32 `thrift:"1,Required"`
	}](),
	typeOf[struct {
		A int32 `thrift:"40000"`
	}](),
	typeOf[struct {
		a int32 `thrift:"1"`
	}](),
	typeOf[struct {
		A int32 `thrift:"1"`
		B int   `thrift:"2"`
	}](),
	typeOf[struct {
		A []Leaf         `thrift:"1"`
		B map[Leaf][]any `thrift:"2"`
	}](),
	typeOf[struct {
		A *struct {
			B string `thrift:"1,"`
		} `thrift:"1"`
	}](),
	typeOf[BadRec](), typeOf[BadPtr](), typeOf[[]BadPtrA](), typeOf[BadL](),
	typeOf[struct {
		A BadPtrA `thrift:"1"`
	}](),
}

type (
	BadPtr  *BadPtr
	BadPtrA **BadPtrB
	BadPtrB *BadPtrA
	BadL    []BadM
	BadM    map[int]BadL
)

type BadRec struct {
	A int32   `thrift:"1"`
	N *BadRec `thrift:"2"`
	B any     `thrift:"3"`
}

// randType makes a type. Struct types made by package reflect carry a nonce, so that the process has never
// seen them before.
type typeGen struct {
	st    *simrt.Stream
	nonce uint64
	n     int
	noMap bool
	used  []reflect.Type // in this run
	few   bool           // keep to the types already used
}

func (g *typeGen) top() reflect.Type {
	if len(g.used) > 0 && (g.few && len(g.used) > 3 || g.st.N(6) == 5) {
		return g.used[g.st.N(len(g.used))]
	}
	t := g.fresh()
	g.used = append(g.used, t)
	return t
}

// nested wraps t in many levels.
func (g *typeGen) nested(t reflect.Type) reflect.Type {
	for range []int{6, 10, 16, 18, 33}[g.st.Pick(3, 3, 2, 2, 1)] {
		switch g.st.Pick(4, 2, 3, 1, 1) {
		case 0:
			g.n++
			t = reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: barePool[g.st.N(14)], Tag: `thrift:"1"`},
				{Name: "B", Type: t, Tag: `thrift:"2,required"`},
				{Name: "C", Type: typeOf[bool](), Tag: `thrift:"18"`},
				{Name: "Nonce", Type: typeOf[struct{}](), Tag: reflect.StructTag(fmt.Sprintf(`thrift:"-" n:"%x.%d"`, g.nonce, g.n))},
			})
		case 1:
			t = reflect.SliceOf(t)
		case 2:
			t = reflect.PointerTo(t)
		case 3:
			if !g.noMap {
				t = reflect.MapOf(keyPool[g.st.N(len(keyPool))], t)
			}
		case 4:
			t = reflect.PointerTo(reflect.SliceOf(t))
		}
	}
	return t
}

func (g *typeGen) fresh() reflect.Type {
	if !g.few && g.st.N(60) == 59 {
		return g.nested(g.pool())
	}
	switch g.st.Pick(5, 4, 2) {
	case 0:
		return g.pool()
	case 1:
		return g.structOf(0)
	default:
		for {
			t := barePool[g.st.N(len(barePool))]
			if g.ok(t) {
				return t
			}
		}
	}
}

func (g *typeGen) ok(t reflect.Type) bool { return !g.noMap || !hasMap(t) }

func (g *typeGen) pool() reflect.Type {
	for range 20 {
		if t := structPool[g.st.N(len(structPool))]; g.ok(t) {
			return t
		}
	}
	return structPool[0]
}

func (g *typeGen) any(depth int) reflect.Type {
	k := g.st.Pick(10, 3, 2, 2, 2, 1)
	if depth > 3 {
		k = 0
	}
	switch k {
	case 0:
		return barePool[g.st.N(14)]
	case 1:
		return reflect.SliceOf(g.any(depth + 1))
	case 2:
		if g.noMap {
			return reflect.SliceOf(g.any(depth + 1))
		}
		return reflect.MapOf(keyPool[g.st.N(len(keyPool))], g.any(depth+1))
	case 3:
		return reflect.PointerTo(g.any(depth + 1))
	case 4:
		return g.structOf(depth + 1)
	default:
		return g.pool()
	}
}

var idGaps = []int{1, 2, 15, 16, 14, 17, 3, 100, 128, 5000}

func (g *typeGen) structOf(depth int) reflect.Type {
	n := g.st.Pick(1, 3, 4, 4, 3, 2, 1, 1, 1)
	if g.st.N(24) == 23 {
		n = 20 + g.st.N(60)
		if depth == 0 && g.st.N(5) == 4 {
			n, depth = 250+g.st.N(60), 3
		}
	}
	id := 0
	switch g.st.N(6) {
	case 4:
		id = -1 - g.st.N(40)
	case 5:
		id = []int{-32768, -129, -16, 32760, 16000}[g.st.N(5)]
	}
	ids := []int{}
	for range n {
		id += idGaps[g.st.Pick(8, 3, 2, 2, 1, 1, 1, 1, 1, 1)]
		if id > 32767 {
			break
		}
		ids = append(ids, id)
	}
	for i := len(ids) - 1; i > 0; i-- { // declaration order differs from ID order
		j := i - g.st.N(i+1)
		ids[i], ids[j] = ids[j], ids[i]
	}
	var fields []reflect.StructField
	for i, id := range ids {
		req := ""
		if g.st.N(4) == 3 {
			req = ",required"
		}
		fields = append(fields, reflect.StructField{
			Name: fmt.Sprintf("F%d", i),
			Type: g.any(depth + 1),
			Tag:  reflect.StructTag(fmt.Sprintf(`thrift:"%d%s"`, id, req)),
		})
	}
	g.n++
	fields = append(fields, reflect.StructField{
		Name: "Nonce", Type: typeOf[struct{}](),
		Tag: reflect.StructTag(fmt.Sprintf(`thrift:"-" n:"%x.%d"`, g.nonce, g.n)),
	})
	return reflect.StructOf(fields)
}

var hasMapCache = map[reflect.Type]bool{}

func hasMap(t reflect.Type) bool {
	if v, ok := hasMapCache[t]; ok {
		return v
	}
	v := hasKind(t, reflect.Map, map[reflect.Type]bool{})
	hasMapCache[t] = v
	return v
}

func hasKind(t reflect.Type, k reflect.Kind, seen map[reflect.Type]bool) bool {
	if t.Kind() == k {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return hasKind(t.Elem(), k, seen)
	case reflect.Map:
		return hasKind(t.Key(), k, seen) || hasKind(t.Elem(), k, seen)
	case reflect.Struct:
		for i := range t.NumField() {
			if hasKind(t.Field(i).Type, k, seen) {
				return true
			}
		}
	}
	return false
}

// maxSize is the largest in-memory size of a type reachable from t.
func maxSize(t reflect.Type, seen map[reflect.Type]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	m := int(t.Size())
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array:
		m = max(m, maxSize(t.Elem(), seen))
	case reflect.Map:
		m = max(m, maxSize(t.Key(), seen)+maxSize(t.Elem(), seen))
	case reflect.Struct:
		for i := range t.NumField() {
			m = max(m, maxSize(t.Field(i).Type, seen))
		}
	}
	return m
}

func typeName(t reflect.Type) string {
	s := strings.ReplaceAll(t.String(), "main.", "")
	s = strings.ReplaceAll(s, "github.com/itstarsun/go-thrift/", "")
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}
