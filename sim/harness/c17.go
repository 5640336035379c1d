//go:build go1.25

package main

import (
	"bytes"
	"fmt"
	gotoken "go/token"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C17", cap: 400_000_000, run: runC17, quick: 80000, thorough: 2400000, real: []string{"tools/thriftfile (parser, scanner)", "go/token of the Go library"},
		stub: []string{"scheduler (preemption before every statement)", "storage: files with cut, zeroed, torn, lost, repeated, flipped and overwritten blocks"},
		rule: "A run is 1 to 3 tasks that each parse 4 to 10 damaged versions of a generated file into one shared file set; every error is compared with what an independent scanner and recogniser find in the same bytes. Every run has injected storage faults and is non-trivial.",
	})
}

// The reference: a scanner and a recogniser of the IDL grammar, independent of tools/thriftfile.

type refTok struct {
	kind     string // IDENT, INT, FLOAT, STRING, EOF, or the text of an operator or keyword
	from, to int
}

type refScan struct {
	toks []refTok
	errs []int // offsets of what is wrong below the level of tokens
}

func refKeyword(s string) bool { return slices.Contains(idlKeywords, s) }

func scanIDL(src []byte) *refScan {
	r := &refScan{}
	type char struct {
		c   rune
		off int
	}
	var cs []char
	for i := 0; i < len(src); {
		c, w := utf8.DecodeRune(src[i:])
		switch {
		case c == 0, c == utf8.RuneError && w == 1, c == 0xfeff && i > 0:
			r.errs = append(r.errs, i)
		}
		if c != 0xfeff || i > 0 {
			cs = append(cs, char{c, i})
		}
		i += w
	}
	at := func(i int) rune {
		if i < len(cs) {
			return cs[i].c
		}
		return -1
	}
	off := func(i int) int {
		if i < len(cs) {
			return cs[i].off
		}
		return len(src)
	}
	digit := func(c rune) bool { return '0' <= c && c <= '9' }
	i := 0
	put := func(kind string, n int) {
		r.toks = append(r.toks, refTok{kind: kind, from: off(i), to: off(i + n)})
		i += n
	}
	for i < len(cs) {
		c := cs[i].c
		switch {
		case strings.ContainsRune(" \t\r\n", c):
			i++
		case c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) && c >= 0x80:
			if unicode.IsDigit(c) {
				r.errs = append(r.errs, off(i))
			}
			n := 1
			for x := at(i + n); x == '_' || x == '.' || unicode.IsLetter(x) || unicode.IsDigit(x); x = at(i + n) {
				n++
			}
			kind := "IDENT"
			if text := string(src[off(i):off(i+n)]); refKeyword(text) {
				kind = text
			}
			put(kind, n)
		case digit(c) || (c == '+' || c == '-') && digit(at(i+1)):
			n := 0
			kind := "INT"
			digits := func() {
				for digit(at(i + n)) {
					n++
				}
			}
			if !digit(c) {
				n++
			}
			if at(i+n) == '0' && (at(i+n+1) == 'x' || at(i+n+1) == 'X') {
				n += 2
				for x := at(i + n); digit(x) || 'a' <= x && x <= 'f' || 'A' <= x && x <= 'F'; x = at(i + n) {
					n++
				}
				put(kind, n)
				break
			}
			digits()
			if at(i+n) == '.' {
				n++
				kind = "FLOAT"
				digits()
			}
			if x := at(i + n); x == 'e' || x == 'E' {
				n++
				kind = "FLOAT"
				if x := at(i + n); x == '+' || x == '-' {
					n++
				}
				digits()
			}
			put(kind, n)
		case c == '"' || c == '\'':
			n := 1
		str:
			for {
				switch x := at(i + n); x {
				case c:
					n++
					break str
				case -1:
					r.errs = append(r.errs, len(src))
					break str
				case '\n':
					r.errs = append(r.errs, off(i+n))
					break str
				case '\\':
					switch x := at(i + n + 1); x {
					case c, '\\', 'n', 'r', 't':
						n += 2
					case -1:
						n++
					default:
						n++
						r.errs = append(r.errs, off(i+n))
						break str
					}
				default:
					n++
				}
			}
			put("STRING", n)
		case c == '#' || c == '/' && at(i+1) == '/':
			for i < len(cs) && cs[i].c != '\n' {
				i++
			}
		case c == '/' && at(i+1) == '*':
			i += 2
			for i < len(cs) && !(cs[i].c == '*' && at(i+1) == '/') {
				i++
			}
			if i >= len(cs) {
				r.errs = append(r.errs, len(src))
			}
			i += 2
		case c == '=' && at(i+1) == '=':
			put("==", 2)
		case strings.ContainsRune("+-*/%&|^=<>!([{,.)]};:", c):
			put(string(c), 1)
		default:
			r.errs = append(r.errs, off(i))
			i++
		}
	}
	r.toks = append(r.toks, refTok{kind: "EOF", from: len(src), to: len(src)})
	slices.Sort(r.errs)
	return r
}

// refParse recognises the grammar and stops at the first token that cannot be there.
type refParse struct {
	toks  []refTok
	pos   int
	exp   []string // what could be at pos
	depth int
	deep  bool
}

func (p *refParse) kind() string { return p.toks[p.pos].kind }

func (p *refParse) got(kinds ...string) bool {
	for _, k := range kinds {
		if p.kind() == k {
			p.pos++
			p.exp = nil
			return true
		}
		p.exp = append(p.exp, k)
	}
	return false
}

func (p *refParse) all(fs ...func() bool) bool {
	for _, f := range fs {
		if !f() {
			return false
		}
	}
	return true
}

func (p *refParse) is(kind string) func() bool { return func() bool { return p.got(kind) } }

func (p *refParse) seps() {
	for p.got(",", ";") {
	}
}

func (p *refParse) list(open, close string, elem func() bool) bool {
	if !p.got(open) {
		return false
	}
	for !p.got(close) {
		if p.kind() == "EOF" || !elem() {
			return false
		}
		p.seps()
	}
	return true
}

func (p *refParse) in() bool {
	p.depth++
	if p.depth > 5000 {
		p.deep = true
	}
	return !p.deep
}

func (p *refParse) typ() bool {
	defer func() { p.depth-- }()
	if !p.in() {
		return false
	}
	p.exp = append(p.exp, "type")
	switch {
	case p.got("map"):
		return p.got("<") && p.typ() && p.got(",") && p.typ() && p.got(">") && p.annotations()
	case p.got("set"), p.got("list"):
		return p.got("<") && p.typ() && p.got(">") && p.annotations()
	case p.got("IDENT"):
		return p.annotations()
	}
	return false
}

func (p *refParse) value() bool {
	defer func() { p.depth-- }()
	if !p.in() {
		return false
	}
	p.exp = append(p.exp, "value")
	switch {
	case p.got("IDENT", "INT", "FLOAT", "STRING"):
		return true
	case p.kind() == "[":
		return p.list("[", "]", p.value)
	case p.kind() == "{":
		return p.list("{", "}", func() bool { return p.value() && p.got(":") && p.value() })
	}
	p.exp = append(p.exp, "[", "{")
	return false
}

func (p *refParse) annotations() bool {
	if p.kind() != "(" {
		p.exp = append(p.exp, "(")
		return true
	}
	return p.list("(", ")", func() bool { return p.got("IDENT") && (!p.got("=") || p.got("STRING")) })
}

func (p *refParse) fields(open, close string) bool {
	return p.list(open, close, func() bool {
		if p.got("INT") && !p.got(":") {
			return false
		}
		p.got("required", "optional")
		if !p.typ() {
			return false
		}
		p.got("&")
		if !p.got("IDENT") && !p.got(idlKeywords...) {
			return false
		}
		return (!p.got("=") || p.value()) && p.annotations()
	})
}

func (p *refParse) method() bool {
	p.got("oneway")
	if !p.got("void") && !p.typ() {
		return false
	}
	return p.got("IDENT") && p.fields("(", ")") && (!p.got("throws") || p.fields("(", ")")) && p.annotations()
}

func (p *refParse) def() bool {
	p.exp = append(p.exp, "definition")
	switch {
	case p.got("const"):
		if !(p.typ() && p.got("IDENT") && p.got("=") && p.value()) {
			return false
		}
		p.seps()
	case p.got("typedef"):
		if !(p.typ() && p.got("IDENT") && p.annotations()) {
			return false
		}
		p.seps()
	case p.got("enum"):
		return p.got("IDENT") && p.list("{", "}", func() bool {
			return p.got("IDENT") && (!p.got("=") || p.got("INT")) && p.annotations()
		}) && p.annotations()
	case p.got("struct", "union", "exception"):
		return p.got("IDENT") && p.fields("{", "}") && p.annotations()
	case p.got("service"):
		return p.got("IDENT") && (!p.got("extends") || p.got("IDENT")) && p.list("{", "}", p.method) && p.annotations()
	default:
		return false
	}
	return true
}

func (p *refParse) file() bool {
	for {
		switch {
		case p.got("include"):
			if !p.got("STRING") {
				return false
			}
			continue
		case p.got("namespace"):
			if !p.got("*") && !p.got("IDENT") || !p.got("IDENT") || !p.annotations() {
				return false
			}
			continue
		}
		break
	}
	for p.kind() != "EOF" {
		if !p.def() {
			return false
		}
	}
	return true
}

// oneError is one reported error.
type oneError struct {
	off int
	msg string
}

func takeError(src []byte, name, text string) (e oneError, ok bool) {
	text, ok1 := strings.CutPrefix(text, name+":")
	a, rest, ok2 := strings.Cut(text, ":")
	b, msg, ok3 := strings.Cut(rest, ":")
	line, e1 := strconv.Atoi(a)
	col, e2 := strconv.Atoi(b)
	if !ok1 || !ok2 || !ok3 || e1 != nil || e2 != nil {
		return e, false
	}
	off, in := offsetOf(src, line, col)
	msg = strings.TrimPrefix(msg, " ")
	if i := strings.LastIndex(msg, " (and "); i > 0 && strings.HasSuffix(msg, " more errors)") {
		msg = msg[:i]
	}
	return oneError{off, msg}, in
}

func checkDiagnostics(s *simrt.Sim, fset *gotoken.FileSet, name string, src []byte, what string) {
	tell := func() string { return fmt.Sprintf("%s: %s", what, clipSrc(src)) }
	_, err := thriftfile.Parse(fset, name, bytes.Clone(src))
	sc := scanIDL(src)
	p := &refParse{toks: sc.toks}
	ok := p.file()
	if p.deep {
		return
	}
	if ok && len(sc.errs) == 0 {
		if err != nil {
			s.Fail("rejected", "%s: well-formed, but: %v", tell(), err)
		}
		s.Count("well-formed")
		return
	}
	bad := p.toks[p.pos]
	if err == nil {
		if ok {
			s.Fail("no-error", "%s: no error reported for what is at %d", tell(), sc.errs[0])
		}
		s.Fail("no-error", "%s: no error reported although %s at %d cannot be there (one of %v can)", tell(), bad.kind, bad.from, p.exp)
	}
	first, in := takeError(src, name, err.Error())
	if !in {
		s.Fail("position", "%s: the first error has no position in this file: %v", tell(), err)
	}
	// Where the first error must be.
	var at []int
	if len(sc.errs) > 0 {
		at = append(at, sc.errs[0])
	}
	syntax := !ok && (len(sc.errs) == 0 || bad.from <= sc.errs[0])
	if syntax {
		if len(sc.errs) == 0 || bad.from < sc.errs[0] {
			at = []int{bad.from}
		} else {
			at = append(at, bad.from)
		}
	}
	if !slices.Contains(at, first.off) {
		s.Fail("position", "%s: the first error is reported at %d, not at %v: %v", tell(), first.off, at, err)
	}
	// All errors, if they can be had: the list is sorted, and at the end of the file several may be reported.
	all := []oneError{first}
	if v := reflect.ValueOf(err); v.Kind() == reflect.Slice && v.Len() <= 3000 {
		all = all[:0]
		for i := range v.Len() {
			one, isErr := v.Index(i).Interface().(error)
			if !isErr {
				return
			}
			e, in := takeError(src, name, one.Error())
			if !in {
				s.Fail("position", "%s: error %d has no position in this file: %v", tell(), i, one)
			}
			all = append(all, e)
		}
		s.Count("lists")
	}
	if syntax && len(at) == 1 && (len(all) > 1 || bad.kind != "EOF") {
		s.Count("syntax-error")
		named := false
		for _, e := range all {
			if e.off != first.off || !strings.Contains(e.msg, "expected") {
				continue
			}
			for _, k := range p.exp {
				if n := "'" + k + "'"; strings.Contains(e.msg, n) || (k == "type" || k == "value" || k == "definition") && strings.Contains(e.msg, k) {
					named = true
				}
			}
		}
		if !named {
			s.Fail("expected", "%s: at %d one of %v can be; the error is %v", tell(), first.off, p.exp, err)
		}
	} else {
		s.Count("lexical-error")
	}
	texts := map[int]string{}
	for _, t := range sc.toks {
		if texts[t.from] = string(src[t.from:t.to]); t.kind == "EOF" {
			texts[t.from] = "EOF"
		}
	}
	for i, e := range all {
		text, isTok := texts[e.off]
		if _, f, yes := strings.Cut(e.msg, "found "); yes && isTok && f != text && f != "'"+text+"'" {
			s.Fail("found", "%s: %q is at %d; error %d is %v", tell(), text, e.off, i, e.msg)
		}
		if j := strings.Index(e.msg, "U+"); j >= 0 && (!isTok || !strings.Contains(e.msg, "expected")) {
			if c, _ := utf8.DecodeRune(src[e.off:]); !strings.HasPrefix(e.msg[j:], fmt.Sprintf("%U", c)) {
				s.Fail("found", "%s: %U is at %d; error %d is %v", tell(), c, e.off, i, e.msg)
			}
		}
	}
	if len(all) == 1 {
		return
	}
	lex, seen := map[int]bool{}, map[int]bool{}
	for _, o := range sc.errs {
		lex[o] = true
	}
	starts := map[int]bool{}
	open := 0
	for _, t := range sc.toks {
		if t.kind == "{" || t.kind == "[" || t.kind == "<" {
			open++
		}
		starts[t.from] = true
	}
	last := -1
	for i, e := range all {
		if e.off < last {
			s.Fail("order", "%s: error %d is at %d, after one at %d: %v", tell(), i, e.off, last, e.msg)
		}
		last = e.off
		switch {
		case lex[e.off]:
		case !starts[e.off]:
			s.Fail("position", "%s: error %d is at %d, where no token begins: %v", tell(), i, e.off, e.msg)
		case !strings.Contains(e.msg, "expected") && open < 5000: // else it may be too deep
			s.Fail("expected", "%s: error %d, at %d, does not say what was expected: %v", tell(), i, e.off, e.msg)
		}
		seen[e.off] = true
	}
	for _, o := range sc.errs {
		if !seen[o] {
			s.Fail("no-error", "%s: no error reported for what is at %d", tell(), o)
		}
	}
}

// damageToken loses, repeats, swaps, changes or adds a token or a character.
func damageToken(s *simrt.Sim, st *simrt.Stream, f *idlFile) damaged {
	d := damaged{kind: "file-token", src: bytes.Clone(f.src), from: len(f.src)}
	for n := 1 + st.Pick(5, 2, 1); n > 0 && len(f.toks) > 0; n-- {
		// The damage nearest to the end first, so that earlier offsets stay right: only before d.from.
		var ts []srcSpan
		for _, t := range f.toks {
			if t.to <= d.from {
				ts = append(ts, t)
			}
		}
		if len(ts) == 0 {
			break
		}
		i := st.N(len(ts))
		t := ts[i]
		cut := func(a, b int, with string) {
			d.src = append(append(append([]byte(nil), d.src[:a]...), with...), d.src[b:]...)
			d.from = a
		}
		text := string(f.src[t.from:t.to])
		other := func() string {
			switch st.Pick(3, 3, 3, 1) {
			case 0:
				u := f.toks[st.N(len(f.toks))]
				return string(f.src[u.from:u.to])
			case 1:
				return idlKeywords[st.N(len(idlKeywords))]
			case 2:
				return []string{"{", "}", "(", ")", "[", "]", "<", ">", ",", ";", ":", "=", "==", "&", "*", "+", "-", ".", "!", "|", "^", "%", "/"}[st.N(23)]
			}
			return []string{"1", "x", "'s'", "1.5", "0x", "\"\"", "-1", "i32", "+", "- 1", "1a", "a:b", "/**/", "/*/ */", "#\n", "//\n"}[st.N(16)]
		}
		switch st.N(7) {
		case 0:
			d.kind = "file-token-lost"
			cut(t.from, t.to, " ")
		case 1:
			d.kind = "file-token-repeated"
			cut(t.from, t.to, text+" "+text)
		case 2:
			d.kind = "file-token-changed"
			cut(t.from, t.to, " "+other()+" ")
		case 3:
			d.kind = "file-token-added"
			cut(t.from, t.from, " "+other()+" ")
		case 4:
			d.kind = "file-tokens-swapped"
			if i+1 < len(ts) {
				u := ts[i+1]
				cut(t.from, u.to, string(f.src[u.from:u.to])+string(f.src[t.to:u.from])+" "+text)
			}
		case 5:
			d.kind = "file-character-added"
			a := t.from + st.N(t.to-t.from+1)
			cut(a, a, []string{"\x00", "\xff", "\ufeff", "\"", "'", "\\", "\u0660", "$", "@", "~", "?", "\u20ac", "\n", "\r", "\xe2\x82", "\x1b", ".", "9", "e", "é"}[st.N(20)])
		case 6:
			d.kind = "file-character-lost"
			a := t.from + st.N(t.to-t.from)
			cut(a, a+1, "")
		}
	}
	s.Fault(d.kind, d.from)
	return d
}

func runC17(s *simrt.Sim) {
	knobs := s.Src.Stream("knobs")
	st := s.Src.Stream("idl")
	fs := s.Src.Stream("fault")
	old := genIDL(st, true).src
	shared := gotoken.NewFileSet()
	ntasks := 1 + knobs.Pick(3, 2, 1)
	small := ntasks > 1 || knobs.N(4) > 0
	for i := range ntasks {
		f := genIDL(st, small)
		n := 4 + fs.N(7)
		var ds []damaged
		for range n {
			if fs.N(3) > 0 {
				ds = append(ds, damageToken(s, fs, f))
				continue
			}
			d := damageFile(s, fs, f, old)
			if len(d.src) > 40000 {
				d.src = d.src[:40000]
			}
			ds = append(ds, d)
		}
		note(s, "file of %d items, %d bytes; %d damaged versions", len(f.items), len(f.src), n)
		s.Go(fmt.Sprintf("parser%d", i), func() {
			for k, d := range ds {
				s.Event(d.kind, uint64(d.from))
				fset := shared
				if knobs.N(4) == 3 {
					fset = gotoken.NewFileSet()
				}
				checkDiagnostics(s, fset, fmt.Sprintf("dir/f%d-%d.thrift", i, k), d.src, fmt.Sprintf("%s at %d of %d", d.kind, d.from, len(f.src)))
			}
		})
	}
	s.Run()
}
