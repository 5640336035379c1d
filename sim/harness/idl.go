//go:build go1.25

package main

import (
	"fmt"
	gotoken "go/token"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// idlGen writes .thrift files together with the syntax trees they mean.
type idlGen struct {
	st      *simrt.Stream
	style   int // 0 dense, 1 usual, 2 messy
	crlf    bool
	left    int
	b       []byte
	toks    []srcSpan // tokens
	coms    []srcSpan // comments
	huge    bool      // a token of this file is huge
	many    bool      // a list of this file has very many elements
	brief   bool      // since then
	deep    int
	lastReq int // start of the last token put with must set
	opt     bool
}

type srcSpan struct{ from, to int }

// idlItem is one header or definition of a file.
type idlItem struct {
	from, to int // first to last token, without separators
	key      int // end of the keyword it starts with
	last     int // start of its last required token
	opt      int // start of its trailing annotations, or to
	header   bool
	dump     string
}

type idlFile struct {
	src   []byte
	tree  *thriftfile.File
	dump  string
	items []idlItem
	toks  []srcSpan
	coms  []srcSpan
}

var idlKeywords = []string{"include", "namespace", "const", "typedef", "enum", "struct", "union", "exception", "service",
	"required", "optional", "extends", "oneway", "void", "throws", "map", "set", "list"}

var idlNames = []string{"i32", "string", "bool", "byte", "i64", "double", "binary", "a", "b1", "foo", "Bar", "shared.SharedStruct", "_x", "__",
	"Struct", "MAP", "lists", "se", "void_", "a.b.c", "T1", "userID", "strictly", "in", "of", "x9", "été", "名前", "a名", "Ωm.e", "n2é3"}

func wordish(c byte) bool {
	return c == '_' || c == '.' || c == '+' || c == '-' || '0' <= c && c <= '9' || 'a' <= c|0x20 && c|0x20 <= 'z' || c >= 0x80
}

func (g *idlGen) nl() {
	if g.crlf {
		g.b = append(g.b, '\r')
	}
	g.b = append(g.b, '\n')
}

func (g *idlGen) comment() {
	from := len(g.b)
	texts := []string{"", " note", " struct A {", "*", " \"quoted\" 'x", " // nested", " 名前 é", " }) ] > ;", "#", " const i32 x = 1", strings.Repeat("long ", 30)}
	text := texts[g.st.N(len(texts))]
	if n := g.hugeSize(); n > 0 {
		text = strings.Repeat("c", n)
	}
	switch g.st.N(3) {
	case 0:
		g.b = append(append(g.b, "//"...), text...)
		g.coms = append(g.coms, srcSpan{from, len(g.b)})
		g.nl()
	case 1:
		g.b = append(append(g.b, '#'), text...)
		g.coms = append(g.coms, srcSpan{from, len(g.b)})
		g.nl()
	case 2:
		g.b = append(append(g.b, "/*"...), text...)
		if g.st.N(3) == 0 {
			g.nl()
			g.b = append(g.b, " * more"...)
		}
		g.b = append(append(g.b, []string{"", " ", "*", "**"}[g.st.N(4)]...), "*/"...)
		g.coms = append(g.coms, srcSpan{from, len(g.b)})
	}
}

// gap separates tokens; need: something must be there.
func (g *idlGen) gap(need bool) {
	n := len(g.b)
	switch g.style {
	case 0:
		if need {
			g.b = append(g.b, ' ')
		}
		return
	case 1:
		switch g.st.Pick(10, 3, 1) {
		case 0:
			g.b = append(g.b, ' ')
		case 1:
			if need {
				g.b = append(g.b, ' ')
			}
		case 2:
			g.nl()
			g.b = append(g.b, "  "...)
		}
		return
	}
	for g.st.N(3) > 0 {
		switch g.st.Pick(4, 2, 2, 1) {
		case 0:
			g.b = append(g.b, ' ')
		case 1:
			g.b = append(g.b, '\t')
		case 2:
			g.nl()
		case 3:
			g.comment()
		}
	}
	if need && len(g.b) == n {
		g.b = append(g.b, " \n\t\r"[g.st.N(4)])
	}
}

// tok puts a token.
func (g *idlGen) tok(text string) {
	g.gap(len(g.b) > 0 && wordish(g.b[len(g.b)-1]) && wordish(text[0]))
	g.toks = append(g.toks, srcSpan{len(g.b), len(g.b) + len(text)})
	g.b = append(g.b, text...)
	g.left--
}

// req puts a token without which the item is incomplete.
func (g *idlGen) req(text string) {
	g.tok(text)
	if !g.opt {
		g.lastReq = len(g.b) - len(text)
	}
}

func (g *idlGen) sep() {
	switch g.st.Pick(3, 3, 1) {
	case 1:
		g.tok(",")
	case 2:
		g.tok(";")
	}
}

// hugeSize is, at most once in a file, the size of a token beyond all buffers and counters.
func (g *idlGen) hugeSize() int {
	if !g.huge || g.st.N(4) < 3 {
		return 0
	}
	g.huge = false
	return []int{65536, 4096, 16384, 32768, 100000, 131072}[g.st.Pick(4, 1, 1, 1, 2, 1)] - 2 + g.st.N(5)
}

// count is n, or, at most once in a file, the size of a list beyond all counters.
func (g *idlGen) count(n int) int {
	if !g.many || g.st.N(6) < 5 {
		return n
	}
	g.many, g.brief, g.style = false, true, 0
	g.left = min(g.left, 0) // nothing else is large
	return []int{10500, 300, 4000}[g.st.Pick(2, 3, 1)]
}

func (g *idlGen) name() string {
	if n := g.hugeSize(); n > 0 {
		return strings.Repeat("n", n)
	}
	if g.brief {
		return idlNames[g.st.N(8)]
	}
	switch g.st.Pick(6, 2, 1) {
	case 0:
		return idlNames[g.st.N(len(idlNames))]
	case 1:
		return "n" + strconv.Itoa(g.st.N(1000))
	}
	return strings.Repeat("long_name", 1+g.st.N(20))
}

func (g *idlGen) ident() *thriftfile.Ident {
	n := g.name()
	g.req(n)
	return &thriftfile.Ident{Name: n}
}

func (g *idlGen) intLit() *thriftfile.Int {
	var v string
	if n := g.hugeSize(); n > 0 {
		v = strings.Repeat("7", n)
		g.req(v)
		return &thriftfile.Int{Value: v}
	}
	switch g.st.Pick(5, 2, 1, 1) {
	case 0:
		v = strconv.Itoa(g.st.N(100))
	case 1:
		v = []string{"-1", "+5", "0", "007", "-0", "9223372036854775807", "123456789012345678901234567890"}[g.st.N(7)]
	case 2:
		v = []string{"0x0", "0XfF", "-0x10", "0xDEADbeef"}[g.st.N(4)]
	case 3:
		v = strconv.FormatInt(int64(g.st.U64()), 10)
	}
	g.req(v)
	return &thriftfile.Int{Value: v}
}

func (g *idlGen) floatLit() *thriftfile.Float {
	v := []string{"1.5", "0.0", "-2.25", "+1.0", "1e10", "1E-5", "6.02e+23", "3.", "0e0", "-1e1"}[g.st.N(10)]
	g.req(v)
	return &thriftfile.Float{Value: v}
}

func (g *idlGen) stringLit() *thriftfile.String {
	q := []string{`"`, `'`}[g.st.N(2)]
	other := map[string]string{`"`: `'`, `'`: `"`}[q]
	var sb strings.Builder
	sb.WriteString(q)
	if n := g.hugeSize(); n > 0 {
		sb.WriteString(strings.Repeat("s", n))
	}
	for !g.brief && g.st.N(4) > 0 {
		parts := []string{"a", "hello world", `\n`, `\t`, `\\`, `\` + q, other, "é名", "//no", "/*no*/", "#", "{[(<", ">)]}", "struct X {", strings.Repeat("text ", 40), " "}
		sb.WriteString(parts[g.st.N(len(parts))])
	}
	sb.WriteString(q)
	v := sb.String()
	g.req(v)
	return &thriftfile.String{Value: v}
}

// annotations puts an annotation list, or none; all its tokens are optional for the item.
func (g *idlGen) annotations(p int) *thriftfile.AnnotationList {
	if g.st.N(p) != p-1 || g.left <= 0 {
		return nil
	}
	was := g.opt
	g.opt = true
	defer func() { g.opt = was }()
	x := &thriftfile.AnnotationList{}
	g.req("(")
	for n := g.count(g.st.N(4)); n > 0; n-- {
		a := &thriftfile.Annotation{Name: g.ident()}
		if g.st.N(3) > 0 {
			g.req("=")
			a.Value = g.stringLit()
		}
		x.List = append(x.List, a)
		g.sep()
	}
	g.req(")")
	return x
}

func (g *idlGen) typ(depth int) thriftfile.Type {
	k := 0
	if depth < 5 && g.left > 0 {
		k = g.st.Pick(6, 1, 1, 1)
	}
	switch k {
	case 1:
		x := &thriftfile.Map{}
		g.req("map")
		g.req("<")
		x.Key = g.typ(depth + 1)
		g.req(",")
		x.Value = g.typ(depth + 1)
		g.req(">")
		x.Annotations = g.annotations(10)
		return x
	case 2:
		x := &thriftfile.Set{}
		g.req("set")
		g.req("<")
		x.Element = g.typ(depth + 1)
		g.req(">")
		x.Annotations = g.annotations(10)
		return x
	case 3:
		x := &thriftfile.List{}
		n := 1
		if depth == 0 && g.deep > 0 && g.st.N(4) == 3 {
			n, g.deep = g.deep, 0
		}
		for range n {
			g.req("list")
			g.req("<")
		}
		x.Element = g.typ(depth + 1)
		for i := range n {
			g.req(">")
			x.Annotations = g.annotations(10)
			if i < n-1 {
				x = &thriftfile.List{Element: x}
			}
		}
		return x
	}
	x := &thriftfile.TypeRef{Name: g.ident()}
	x.Annotations = g.annotations(12)
	return x
}

func (g *idlGen) value(depth int) thriftfile.Value {
	k := g.st.Pick(2, 4, 2, 3)
	if depth < 5 && g.left > 0 && g.st.N(4) == 3 {
		k = 4 + g.st.N(2)
	}
	switch k {
	case 0:
		return g.ident()
	case 1:
		return g.intLit()
	case 2:
		return g.floatLit()
	case 3:
		return g.stringLit()
	case 4:
		x := &thriftfile.ValueList{}
		n := 1
		if depth == 0 && g.deep > 0 && g.st.N(4) == 3 {
			n, g.deep = g.deep, 0
		}
		for range n {
			g.req("[")
		}
		for m := g.st.N(5); m > 0; m-- {
			x.List = append(x.List, g.value(depth+1))
			g.sep()
		}
		for i := range n {
			g.req("]")
			if i < n-1 {
				x = &thriftfile.ValueList{List: []thriftfile.Value{x}}
			}
		}
		return x
	}
	x := &thriftfile.KeyValuePairList{}
	g.req("{")
	for m := g.count(g.st.N(4)); m > 0; m-- {
		p := &thriftfile.KeyValuePair{Key: g.value(depth + 1)}
		g.req(":")
		p.Value = g.value(depth + 1)
		x.List = append(x.List, p)
		g.sep()
	}
	g.req("}")
	return x
}

func (g *idlGen) fields(open, close string, throws bool) *thriftfile.FieldList {
	x := &thriftfile.FieldList{}
	g.req(open)
	for n := g.count(g.st.Pick(2, 3, 3, 2, 1, 1)); n > 0; n-- {
		f := &thriftfile.Field{}
		if g.st.N(4) > 0 {
			f.ID = g.intLit()
			g.req(":")
		}
		switch g.st.N(4) {
		case 2:
			g.req("required")
			f.Required = true
		case 3:
			g.req("optional")
			f.Optional = true
		}
		f.Type = g.typ(0)
		if g.st.N(12) == 11 {
			g.req("&")
			f.Reference = true
		}
		if g.st.N(12) == 11 {
			f.Name = &thriftfile.Ident{Name: idlKeywords[g.st.N(len(idlKeywords))]}
			g.req(f.Name.Name)
		} else {
			f.Name = g.ident()
		}
		if g.st.N(5) == 4 {
			g.req("=")
			f.Default = g.value(1)
		}
		f.Annotations = g.annotations(10)
		x.List = append(x.List, f)
		g.sep()
	}
	g.req(close)
	return x
}

func (g *idlGen) header() (x thriftfile.Header, kw string) {
	if g.st.N(2) == 0 {
		g.req("include")
		return &thriftfile.Include{Path: g.stringLit()}, "include"
	}
	n := &thriftfile.Namespace{}
	g.req("namespace")
	if g.st.N(4) == 3 {
		g.req("*")
	} else {
		n.Scope = g.ident()
	}
	n.Name = g.ident()
	n.Annotations = g.annotations(4)
	return n, "namespace"
}

func (g *idlGen) def() (d thriftfile.Def, kw string) {
	switch g.st.Pick(3, 2, 2, 4, 3) {
	case 0:
		x := &thriftfile.Const{}
		g.req("const")
		x.Type = g.typ(0)
		x.Name = g.ident()
		g.req("=")
		x.Value = g.value(0)
		return x, "const"
	case 1:
		x := &thriftfile.Typedef{}
		g.req("typedef")
		x.Type = g.typ(0)
		x.Name = g.ident()
		x.Annotations = g.annotations(4)
		return x, "typedef"
	case 2:
		x := &thriftfile.Enum{Values: &thriftfile.EnumValueList{}}
		g.req("enum")
		x.Name = g.ident()
		g.req("{")
		for n := g.count(g.st.N(5)); n > 0; n-- {
			v := &thriftfile.EnumValue{Name: g.ident()}
			if g.st.N(2) == 1 {
				g.req("=")
				v.Value = g.intLit()
			}
			v.Annotations = g.annotations(8)
			x.Values.List = append(x.Values.List, v)
			g.sep()
		}
		g.req("}")
		x.Annotations = g.annotations(4)
		return x, "enum"
	case 3:
		x := &thriftfile.Struct{}
		kw = []string{"struct", "union", "exception"}[g.st.Pick(3, 1, 1)]
		g.req(kw)
		x.Union, x.Exception = kw == "union", kw == "exception"
		x.Name = g.ident()
		x.Fields = g.fields("{", "}", false)
		x.Annotations = g.annotations(4)
		return x, kw
	}
	x := &thriftfile.Service{Methods: &thriftfile.MethodList{}}
	g.req("service")
	x.Name = g.ident()
	if g.st.N(3) == 2 {
		g.req("extends")
		x.Extends = g.ident()
	}
	g.req("{")
	for n := g.count(g.st.N(4)); n > 0; n-- {
		m := &thriftfile.Method{}
		if g.st.N(4) == 3 {
			g.req("oneway")
			m.OneWay = true
		}
		if g.st.N(3) == 0 {
			g.req("void")
			m.Void = true
		} else {
			m.Return = g.typ(0)
		}
		m.Name = g.ident()
		m.Arguments = g.fields("(", ")", false)
		if g.st.N(3) == 2 {
			g.req("throws")
			m.Throws = g.fields("(", ")", true)
		}
		m.Annotations = g.annotations(8)
		x.Methods.List = append(x.Methods.List, m)
		g.sep()
	}
	g.req("}")
	x.Annotations = g.annotations(4)
	return x, "service"
}

// genIDL makes a file.
func genIDL(st *simrt.Stream, small bool) *idlFile {
	g := &idlGen{st: st, style: st.Pick(2, 3, 3), crlf: st.N(6) == 5}
	g.left = []int{120, 30, 600}[st.Pick(4, 3, 1)]
	if small {
		g.left = min(g.left, 60)
	}
	if st.N(6) == 5 && !small {
		g.deep = []int{30, 300, 3000, 9000}[st.Pick(8, 6, 2, 1)]
	}
	g.huge = !small && st.N(12) == 11
	g.many = !small && st.N(30) == 29
	f := &idlFile{tree: &thriftfile.File{}}
	if st.N(12) == 11 {
		g.b = append(g.b, "\ufeff"...)
	}
	put := func(header bool, one func() (any, string)) {
		g.lastReq = 0
		n := len(g.toks)
		node, kw := one()
		it := idlItem{from: g.toks[n].from, to: g.toks[len(g.toks)-1].to, last: g.lastReq, header: header}
		it.key = it.from + len(kw)
		it.opt = it.to
		for _, t := range g.toks[n:] {
			if t.from > it.last {
				it.opt = t.from
				break
			}
		}
		it.dump = dumpNode(node, 0)
		f.items = append(f.items, it)
		if !header {
			switch node.(type) {
			case *thriftfile.Const, *thriftfile.Typedef:
				g.sep()
			}
		}
		if g.style == 1 {
			g.nl()
		}
	}
	for n := g.count(st.Pick(3, 3, 2, 1)); n > 0; n-- {
		put(true, func() (any, string) {
			h, kw := g.header()
			f.tree.Headers = append(f.tree.Headers, h)
			return h, kw
		})
	}
	for n := min(1000, g.count(st.Pick(1, 3, 3, 3, 2))); n > 0 || g.left > 100; n-- {
		put(false, func() (any, string) {
			d, kw := g.def()
			f.tree.Defs = append(f.tree.Defs, d)
			return d, kw
		})
	}
	g.gap(false)
	f.src, f.toks, f.coms = g.b, g.toks, g.coms
	f.dump = dumpNode(f.tree, 0)
	return f
}

// dumpNode prints a syntax tree; positions are printed relative to base.
func dumpNode(x any, base gotoken.Pos) string {
	var sb strings.Builder
	dumpInto(&sb, reflect.ValueOf(x), base)
	return sb.String()
}

func dumpInto(sb *strings.Builder, v reflect.Value, base gotoken.Pos) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dumpInto(sb, v.Elem(), base)
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		for i := range v.NumField() {
			f := v.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			sb.WriteString(f.Name)
			sb.WriteByte(':')
			dumpInto(sb, v.Field(i), base)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice:
		sb.WriteByte('[')
		for i := range v.Len() {
			dumpInto(sb, v.Index(i), base)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	default:
		if v.CanInt() {
			fmt.Fprintf(sb, "@%d", v.Int()-int64(base))
			return
		}
		fmt.Fprintf(sb, "%v", v.Interface())
	}
}

// firstError takes "name:line:col: message" apart.
func firstError(err error, name string) (line, col int, ok bool) {
	text, ok := strings.CutPrefix(err.Error(), name+":")
	if !ok {
		return 0, 0, false
	}
	a, rest, ok1 := strings.Cut(text, ":")
	b, _, ok2 := strings.Cut(rest, ":")
	line, e1 := strconv.Atoi(a)
	col, e2 := strconv.Atoi(b)
	return line, col, ok1 && ok2 && e1 == nil && e2 == nil
}

// lineStarts lists the offsets at which the lines of a file start.
func lineStarts(src []byte) []int {
	l := []int{0}
	for i, c := range src {
		if c == '\n' && i+1 < len(src) {
			l = append(l, i+1)
		}
	}
	return l
}

// offsetOf is the offset of a position, and whether the file has it.
func offsetOf(src []byte, line, col int) (int, bool) {
	l := lineStarts(src)
	if line < 1 || line > len(l) || col < 1 {
		return 0, false
	}
	end := len(src)
	if line < len(l) {
		end = l[line] - 1
	}
	off := l[line-1] + col - 1
	return off, off <= end
}

func positionOf(src []byte, off int) (line, col int) {
	l := lineStarts(src)
	line = sort.SearchInts(l, off+1)
	return line, off - l[line-1] + 1
}

// damage makes what a crash, a torn write or bad storage leaves of a file. old is what the blocks held before.
type damaged struct {
	src  []byte
	kind string
	cut  bool // src is a prefix of the original, or one followed by NUL bytes only
	from int  // first damaged byte
}

func damageFile(s *simrt.Sim, st *simrt.Stream, f *idlFile, old []byte) damaged {
	o := f.src
	n := len(o)
	at := 0
	switch st.Pick(4, 3, 3, 1) {
	case 0:
		at = st.N(n + 1)
	case 1: // around an end of a token
		if len(f.toks) > 0 {
			t := f.toks[st.N(len(f.toks))]
			at = []int{t.from, t.to, t.to - 1, t.from + 1}[st.N(4)]
		}
	case 2: // in the last part
		at = n - st.N(min(n, 40)+1)
	case 3: // inside a comment, or at the start
		if len(f.coms) > 0 {
			c := f.coms[st.N(len(f.coms))]
			at = c.from + st.N(c.to-c.from+1)
		}
	}
	at = max(0, min(at, n))
	block := []int{16, 64, 512}[st.N(3)]
	blk := func() (int, int) {
		b := at / block * block
		return b, min(n, b+block)
	}
	var d damaged
	cp := append([]byte(nil), o...)
	switch st.Pick(8, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2) {
	case 0:
		d.kind, d.src, d.cut = "file-cut", cp[:at], true
	case 1:
		for i := at; i < n; i++ {
			cp[i] = 0
		}
		d.kind, d.src, d.cut = "file-zero-tail", cp, true
	case 2:
		a, b := blk()
		for i := a; i < b; i++ {
			cp[i] = 0
		}
		d.kind, d.src = "file-zero-block", cp
	case 3:
		for range 1 + st.N(3) {
			if n > 0 {
				cp[min(n-1, at)] ^= 1 << st.N(8)
				at = st.N(n)
			}
		}
		d.kind, d.src = "file-bit-flip", cp
	case 4:
		a, b := blk()
		for i := a; i < b; i++ {
			cp[i] = 0xff
			if i < len(old) {
				cp[i] = old[i]
			}
		}
		d.kind, d.src = "file-lost-write", cp
	case 5:
		a, b := blk()
		end := a + st.N(b-a+1)
		d.kind, d.src = "file-torn-block", append(cp[:end:end], o[min(b, n):]...)
	case 6: // a piece is written twice
		a, b := blk()
		d.kind, d.src = "file-repeated-block", append(append(cp[:b:b], o[a:b]...), o[b:]...)
	case 7: // one token gone
		if len(f.toks) > 0 {
			t := f.toks[st.N(len(f.toks))]
			cp = append(cp[:t.from:t.from], o[t.to:]...)
		}
		d.kind, d.src = "file-token-lost", cp
	case 8: // one token replaced by another
		if len(f.toks) > 0 {
			t, u := f.toks[st.N(len(f.toks))], f.toks[st.N(len(f.toks))]
			cp = append(append(cp[:t.from:t.from], o[u.from:u.to]...), o[t.to:]...)
		}
		d.kind, d.src = "file-token-changed", cp
	case 9: // garbage in place of the rest
		d.kind, d.src = "file-garbage-tail", append(cp[:at:at], idlGarbage(st)...)
	case 10:
		d.kind, d.src = "file-garbage-inside", append(append(cp[:at:at], idlGarbage(st)...), o[at:]...)
	}
	d.from = 0
	for d.from < len(d.src) && d.from < n && d.src[d.from] == o[d.from] {
		d.from++
	}
	s.Fault(d.kind, d.from)
	return d
}

// idlGarbage makes bytes that might be part of a .thrift file, or not.
func idlGarbage(st *simrt.Stream) []byte {
	var b []byte
	pieces := []string{"{", "}", "(", ")", "[", "]", "<", ">", ",", ";", ":", "=", "==", "&", "*", "\"", "'", "\\", "/*", "*/", "//", "#", "\n", "\x00", "\xff", "\xc3",
		"\ufeff", "+", "-", ".", "0x", "1e", "!", "|", "^", "%", "/", " ", "\u0660", "\u00e9", "7", "\"\\q", "'a\n"}
	switch st.Pick(20, 10, 12, 1) {
	case 0:
		for range 1 + st.N(20) {
			switch st.N(3) {
			case 0:
				b = append(b, idlKeywords[st.N(len(idlKeywords))]...)
			case 1:
				b = append(b, pieces[st.N(len(pieces))]...)
			case 2:
				b = append(b, idlNames[st.N(len(idlNames))]...)
			}
			if st.N(3) == 0 {
				b = append(b, ' ')
			}
		}
	case 1:
		b = pattern(1+3*st.N(1000), 1+st.N(200))
	case 2: // one thing again and again
		unit := [][]string{{"["}, {"{"}, {"("}, {"list<"}, {"map<"}, {"set<"}, {"map<a,"}, {"[{"}, {"{a:"}, {"const "}, {"struct A{"}, {"\"\\"}, {"'"}, {"\x00"}, {"=="},
			{"struct{1:list<"}, {"/*"}, {"(a="}, {","}, {"service S{f("}, {"enum "}, {"const i32 x="}, {"=[", "[", "]"}}[st.N(23)]
		n := []int{10, 200, 3000, 20000}[st.Pick(16, 12, 8, 1)]
		b = append(b, []string{"", "const i32 x = ", "typedef ", "struct A {1: "}[st.N(4)]...)
		for i := range n {
			b = append(b, unit[i%len(unit)]...)
		}
	case 3: // very deep
		unit := []string{"[", "list<", "{", "map<", "[{"}[st.N(5)]
		n := []int{20000, 120000}[st.Pick(3, 1)]
		b = append(b, []string{"const i32 x = ", "typedef ", "struct A {1: ", "struct A {1: i32 a = "}[st.N(4)]...)
		b = append(b, strings.Repeat(unit, n)...)
	}
	return b
}

func clipSrc(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q… (%d bytes)", b[:300], len(b))
	}
	return strconv.Quote(string(b))
}

// firstDiff shows where two dumps part.
func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	for i > 0 && i < len(got) && !utf8.RuneStart(got[i]) {
		i--
	}
	cut := func(s string) string {
		a, b := max(0, i-80), min(len(s), i+80)
		if a > b {
			a = b
		}
		return s[a:b]
	}
	return fmt.Sprintf("got …%s… want …%s…", cut(got), cut(want))
}
