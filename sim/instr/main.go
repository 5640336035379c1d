// Command instr instruments the packages of a Go module for simulation, without touching its files:
// it writes instrumented copies to a scratch directory and an overlay file for `go build -overlay`.
//
//   - a call Y(site) before every statement and at the start of every loop body: the preemption and
//     step-counting points of the simulator;
//   - YV(site, call) around calls nested in other expressions: preemption points inside a statement;
//   - package sync becomes the cooperative simsync;
//   - iteration order of maps (range statements, reflect's MapRange and MapKeys) comes from the simulator;
//   - bufio.NewReader and bufio.NewWriter take their buffer size from the simulator.
//
// All edits are insertions or replacements of source text at positions taken from the syntax tree, so
// everything else (comments, directives, line numbers) stays as written.
//
// usage: instr -repo DIR -sim DIR -out DIR [-level N]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	Module     *struct{ Path, Dir string }
}

type edit struct {
	off, del int
	ins      string
	seq      int
}

var (
	repo  = flag.String("repo", "/repo", "module to instrument")
	simD  = flag.String("sim", "/verif/sim", "directory with simrt, simsync, harness")
	out   = flag.String("out", "", "output directory")
	level = flag.Int("level", 0, "0 everything; 1 no yields inside expressions; 2 also no map and bufio rewriting; 3 also no sync rewriting; 4 no instrumentation")
	race  = flag.Bool("race", false, "instrument for the race build: statements only")
	entry = flag.String("entry", "harness", "directory below -sim with the main package")
)

var sites []string

func main() {
	flag.Parse()
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func run() error {
	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	outp, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	var module string
	dec := json.NewDecoder(strings.NewReader(string(outp)))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard && p.Module != nil && len(p.GoFiles) > 0 {
			module = p.Module.Path
			pkgs = append(pkgs, &p)
		}
	}
	if len(pkgs) == 0 {
		return fmt.Errorf("no packages in %s", *repo)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })

	if err := os.MkdirAll(*out, 0o777); err != nil {
		return err
	}
	replace := map[string]string{}
	simBase := module + "/zzverifsim"
	tags := "nosuite"
	for _, p := range pkgs {
		if isSuite(p) {
			tags = ""
		} else if *level >= 4 {
			continue
		}
		if err := instrument(p, exports, simBase, replace); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}

	if suiteBroken || *level >= 5 {
		tags = "nosuite"
	}
	if err := os.WriteFile(filepath.Join(*out, "tags"), []byte(tags), 0o666); err != nil {
		return err
	}

	for _, d := range []string{"simrt", "simsync", "simtesting", *entry} {
		files, err := filepath.Glob(filepath.Join(*simD, d, "*.go"))
		if err != nil || len(files) == 0 {
			return fmt.Errorf("no files in %s/%s", *simD, d)
		}
		for _, f := range files {
			abs, _ := filepath.Abs(f)
			replace[filepath.Join(*repo, "zzverifsim", d, filepath.Base(f))] = abs
		}
	}
	var sb strings.Builder
	sb.WriteString("package simrt\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&sb, "\t}\n\tInstrLevel = %d\n}\n", *level)
	sitesFile := filepath.Join(*out, "sites_gen.go")
	if err := os.WriteFile(sitesFile, []byte(sb.String()), 0o666); err != nil {
		return err
	}
	replace[filepath.Join(*repo, "zzverifsim", "simrt", "sites_gen.go")] = sitesFile

	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	return os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o666)
}

var syncNames = map[string]bool{
	"Mutex": true, "RWMutex": true, "Once": true, "Map": true, "WaitGroup": true,
	"Pool": true, "Locker": true, "Cond": true, "NewCond": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true,
}

// isSuite tells the conformance suite, whose package testing is replaced too.
func isSuite(p *listPkg) bool { return strings.HasSuffix(p.ImportPath, "/testing/thrifttest") }

// suiteBroken is set if the suite uses parts of package testing that simtesting does not have.
var suiteBroken bool

var testingNames = map[string]bool{
	"T": true, "TB": true, "Short": true, "Verbose": true, "Testing": true,
	"Run": true, "Parallel": true, "Helper": true, "Name": true, "Failed": true, "Skipped": true, "Cleanup": true, "Fail": true,
	"FailNow": true, "SkipNow": true, "Log": true, "Logf": true, "Error": true, "Errorf": true, "Fatal": true, "Fatalf": true,
	"Skip": true, "Skipf": true,
}

func instrument(p *listPkg, exports map[string]string, simBase string, replace map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		f, err := parser.ParseFile(fset, path, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
		names = append(names, path)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {}, // best effort: the compiler reports real errors
	}
	_, _ = conf.Check(p.ImportPath, fset, files, info)

	// Replace sync only if every name used exists in simsync.
	replaceSync := *level < 3 && !*race
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok && pkgOf(info, se.X) == "sync" && !syncNames[se.Sel.Name] {
				replaceSync = false
			}
			if se, ok := n.(*ast.SelectorExpr); ok && isSuite(p) && !testingNames[se.Sel.Name] {
				if sel := info.Selections[se]; pkgOf(info, se.X) == "testing" || sel != nil && sel.Obj().Pkg() != nil && sel.Obj().Pkg().Path() == "testing" {
					suiteBroken = true
				}
			}
			return true
		})
	}

	initRefs := initReferences(info, files)
	for i, f := range files {
		src, err := os.ReadFile(names[i])
		if err != nil {
			return err
		}
		in := &inst{fset: fset, info: info, src: src, file: fset.File(f.Pos()), rel: strings.TrimPrefix(names[i], *repo+"/"), simBase: simBase}
		if isSuite(p) {
			in.replaceImport(f, "testing", "simtesting")
		}
		if *level < 4 {
			in.walk(f, replaceSync)
		}
		if *level < 1 {
			in.resets(f, initRefs)
		}
		if len(in.edits) == 0 {
			continue
		}
		in.insert(f.Name.End(), `; import zzsimrt "`+simBase+`/simrt"`)
		tail := "\nvar _ = zzsimrt.Y\n" + strings.Join(in.tail, "")
		in.edits = append(in.edits, edit{off: len(src), ins: tail, seq: len(in.edits)})
		res := in.apply()
		dst := filepath.Join(*out, strings.NewReplacer("/", "__").Replace(in.rel))
		if err := os.WriteFile(dst, res, 0o666); err != nil {
			return err
		}
		abs, _ := filepath.Abs(dst)
		replace[names[i]] = abs
	}
	return nil
}

func pkgOf(info *types.Info, x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		if pn, ok := info.Uses[id].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
	}
	return ""
}

type inst struct {
	fset    *token.FileSet
	info    *types.Info
	src     []byte
	file    *token.File
	rel     string
	simBase string
	edits   []edit
	tail    []string
	tailed  map[string]bool
}

func (in *inst) off(p token.Pos) int { return in.file.Offset(p) }

func (in *inst) insert(p token.Pos, s string) {
	in.edits = append(in.edits, edit{off: in.off(p), ins: s, seq: len(in.edits)})
}

func (in *inst) replace(from, to token.Pos, s string) {
	in.edits = append(in.edits, edit{off: in.off(from), del: in.off(to) - in.off(from), ins: s, seq: len(in.edits)})
}

func (in *inst) addTail(s string) {
	if in.tailed == nil {
		in.tailed = map[string]bool{}
	}
	if !in.tailed[s] {
		in.tailed[s] = true
		in.tail = append(in.tail, s)
	}
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) site(p token.Pos) string {
	pos := in.fset.Position(p)
	sites = append(sites, in.rel+":"+strconv.Itoa(pos.Line))
	return strconv.Itoa(len(sites) - 1)
}

func (in *inst) y(p token.Pos) string { return "zzsimrt.Y(" + in.site(p) + ");" }

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.insert(s.Pos(), in.y(s.Pos()))
	}
}

func (in *inst) replaceImport(f *ast.File, from, to string) {
	for _, im := range f.Imports {
		if im.Path.Value == strconv.Quote(from) {
			name := from + " "
			if im.Name != nil {
				name = ""
			}
			in.replace(im.Path.Pos(), im.Path.End(), name+`"`+in.simBase+`/`+to+`"`)
		}
	}
}

func (in *inst) walk(f *ast.File, replaceSync bool) {
	mapRewrite := *level < 2 && !*race
	if replaceSync {
		in.replaceImport(f, "sync", "simsync")
	}
	var stack []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if e, ok := n.(*ast.CallExpr); ok && len(stack) > 0 && *level < 1 && !*race {
			in.wrapCall(e, stack[len(stack)-1])
		}
		stack = append(stack, n)
		switch n := n.(type) {
		case *ast.BlockStmt:
			in.stmts(n.List)
		case *ast.CaseClause:
			in.stmts(n.Body)
		case *ast.CommClause:
			in.stmts(n.Body)
		case *ast.ForStmt:
			in.insert(n.Body.Lbrace+1, in.y(n.Body.Lbrace))
		case *ast.RangeStmt:
			if !(mapRewrite && in.rangeMap(n)) {
				in.insert(n.Body.Lbrace+1, in.y(n.Body.Lbrace))
			}
		case *ast.GoStmt:
			if *level < 3 && !*race {
				in.replace(n.Go, n.Call.Pos(), "zzsimrt.GoStmt(func() { ")
				in.insert(n.Call.End(), " })")
			}
		case *ast.CallExpr:
			if !mapRewrite {
				break
			}
			se, ok := n.Fun.(*ast.SelectorExpr)
			if !ok {
				break
			}
			if pkgOf(in.info, se.X) == "bufio" && (se.Sel.Name == "NewReader" || se.Sel.Name == "NewWriter") && len(n.Args) == 1 {
				in.replace(se.Pos(), se.End(), "zzsimrt.Buf"+se.Sel.Name[3:])
				in.addTail("\nvar _ " + in.text(se.X) + ".Reader\n")
				break
			}
			if !in.isReflectValueMethod(se) {
				break
			}
			switch se.Sel.Name {
			case "MapRange", "MapKeys":
				if len(n.Args) == 0 {
					in.insert(n.Pos(), "zzsimrt."+se.Sel.Name+"(")
					in.replace(se.X.End(), n.End(), ")")
				}
			case "SetIterKey", "SetIterValue":
				if len(n.Args) == 1 {
					in.insert(n.Pos(), "zzsimrt."+se.Sel.Name+"(")
					in.replace(se.X.End(), n.Lparen+1, ",")
				}
			}
		case *ast.SelectorExpr:
			if mapRewrite && pkgOf(in.info, n.X) == "reflect" && n.Sel.Name == "MapIter" {
				in.replace(n.Pos(), n.End(), "zzsimrt.MapIter")
				in.addTail("\nvar _ " + in.text(n.X) + ".Value\n")
			}
		}
		return true
	})
}

// wrapCall makes the moment between a call and the use of its result, within one expression, a
// preemption point.
func (in *inst) wrapCall(n *ast.CallExpr, parent ast.Node) {
	switch parent.(type) {
	case *ast.CallExpr, *ast.BinaryExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.KeyValueExpr, *ast.CompositeLit:
	default:
		return
	}
	fun, ok := in.info.Types[n.Fun]
	if !ok || !fun.IsValue() {
		return // a conversion, or a built-in function
	}
	tv, ok := in.info.Types[n]
	if !ok || !tv.IsValue() || tv.Type == nil {
		return
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return
	}
	in.insert(n.Pos(), "zzsimrt.YV("+in.site(n.Pos())+",")
	in.insert(n.End(), ")")
}

func (in *inst) isReflectValueMethod(se *ast.SelectorExpr) bool {
	sel := in.info.Selections[se]
	if sel == nil || sel.Kind() != types.MethodVal {
		return false
	}
	fn, ok := sel.Obj().(*types.Func)
	return ok && strings.HasPrefix(fn.FullName(), "(reflect.Value).")
}

func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	}
	return false
}

// rangeMap rewrites a range over a map so that the simulator decides the order.
func (in *inst) rangeMap(n *ast.RangeStmt) bool {
	tv, ok := in.info.Types[n.X]
	if !ok || n.Key == nil {
		return false
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return false
	}
	blank := func(e ast.Expr) bool { id, ok := e.(*ast.Ident); return e == nil || ok && id.Name == "_" }
	if n.Value == nil || blank(n.Value) {
		if blank(n.Key) {
			return false
		}
		// for k := range m  ->  for _, k := range KeysOf(m)
		in.replace(n.Key.Pos(), n.X.Pos(), "_, "+in.text(n.Key)+" "+n.Tok.String()+" range zzsimrt.KeysOf(")
		in.insert(n.X.End(), ")")
		in.insert(n.Body.Lbrace+1, in.y(n.Body.Lbrace))
		return true
	}
	if !simple(n.X) || n.Tok != token.DEFINE {
		return false
	}
	m := in.text(n.X)
	k := in.text(n.Key)
	if blank(n.Key) {
		k = "zzk"
	}
	v := in.text(n.Value)
	in.replace(n.Key.Pos(), n.X.Pos(), "_, "+k+" := range zzsimrt.KeysOf(")
	in.insert(n.X.End(), ")")
	in.insert(n.Body.Lbrace+1, v+", zzok := "+m+"["+k+"]; if !zzok { continue };"+in.y(n.Body.Lbrace))
	return true
}

func (in *inst) apply() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	pos := 0
	for _, e := range in.edits {
		if e.off < pos { // overlapping replacement: keep the first
			continue
		}
		sb.Write(in.src[pos:e.off])
		sb.WriteString(e.ins)
		pos = e.off + e.del
	}
	sb.Write(in.src[pos:])
	return []byte(sb.String())
}
