//go:build go1.25

package main

import (
	"bytes"
	"fmt"
	gotoken "go/token"
	"reflect"
	"regexp"
	"slices"
	"strings"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C13", run: runC13, quick: 100000, thorough: 3000000, race: [2]int{12000, 300000},
		real: []string{"tools/thriftfile (parser, scanner)", "go/token of the Go library"},
		stub: []string{"scheduler (preemption before every statement)", "storage the files are read from"},
		rule: "A run is 2 to 5 tasks that each parse 1 to 4 generated files, well-formed or damaged, most of them with one shared file set and several of the same file, into read buffers that are overwritten for the next file; every run with more than two task switches is non-trivial.",
	})
}

// parseJob is one file to parse and what parsing it alone gives.
type parseJob struct {
	name string
	src  []byte
	want string // the tree; empty if the file is damaged
	dump string // alone
	err  string
}

// treePos rebases the positions of a tree: those of placeholders, to offsets in the file they are in.
func treeDump(fset *gotoken.FileSet, name string, src []byte, f *thriftfile.File) (string, error) {
	if f == nil {
		return "", fmt.Errorf("nil tree")
	}
	base := gotoken.Pos(0)
	for _, d := range f.Defs {
		b, ok := d.(*thriftfile.BadDef)
		if !ok {
			continue
		}
		for _, pos := range []gotoken.Pos{b.From, b.To} {
			file := fset.File(pos)
			if file == nil {
				return "", fmt.Errorf("position %d of a placeholder is in no file", pos)
			}
			if file.Name() != name {
				return "", fmt.Errorf("position %v of a placeholder is in another file", fset.Position(pos))
			}
			if base == 0 {
				base = gotoken.Pos(file.Base())
			} else if base != gotoken.Pos(file.Base()) {
				return "", fmt.Errorf("placeholders are in two files")
			}
		}
		if from, to := int(b.From-base), int(b.To-base); from >= to || to > len(src) || !startsToken(src[from:]) || to < len(src) && !startsDef(src[to:]) {
			return "", fmt.Errorf("placeholder from %v to %v, which is not the beginning of a definition", fset.Position(b.From), fset.Position(b.To))
		}
	}
	return dumpNode(f, base), nil
}

var defStart = regexp.MustCompile(`^(const|typedef|enum|struct|union|exception|service)($|[^A-Za-z0-9_.])`)

func startsDef(b []byte) bool { return defStart.Match(b) }

func startsToken(b []byte) bool {
	return !bytes.ContainsRune([]byte(" \t\r\n#"), rune(b[0])) && !bytes.HasPrefix(b, []byte("//")) && !bytes.HasPrefix(b, []byte("/*"))
}

func errString(err error) string {
	if err == nil {
		return ""
	}
	// All errors of the list, if it is one.
	if v := reflect.ValueOf(err); v.Kind() == reflect.Slice {
		t := fmt.Sprint(v.Len(), " ", err.Error())
		for i := range min(v.Len(), 30) {
			if e, ok := v.Index(i).Interface().(error); ok {
				t += "\n" + e.Error()
			}
		}
		return t
	}
	return err.Error()
}

func runC13(s *simrt.Sim) {
	knobs := s.Src.Stream("knobs")
	st := s.Src.Stream("idl")
	fs := s.Src.Stream("fault")
	var files []*idlFile
	var jobs []*parseJob
	for i := range 1 + knobs.Pick(3, 3, 2, 1) {
		f := genIDL(st, knobs.N(3) > 0)
		files = append(files, f)
		j := &parseJob{name: fmt.Sprintf("dir/f%d.thrift", i), src: f.src, want: f.dump}
		jobs = append(jobs, j)
		for knobs.N(3) == 2 {
			d := damageFile(s, fs, f, files[knobs.N(len(files))].src)
			if len(d.src) > 20000 {
				d.src = d.src[:20000]
			}
			k := &parseJob{name: fmt.Sprintf("dir/f%d-%d-%s.thrift", i, len(jobs), d.kind), src: d.src}
			if bytes.Equal(d.src, f.src) {
				k.want = f.dump
			}
			jobs = append(jobs, k)
		}
	}
	// Alone.
	for _, j := range jobs {
		simrt.Restart()
		fset := gotoken.NewFileSet()
		f, err := thriftfile.Parse(fset, j.name, bytes.Clone(j.src))
		d, derr := treeDump(fset, j.name, j.src, f)
		if derr != nil {
			s.Fail("position", "%s: %v: %s", j.name, derr, clipSrc(j.src))
		}
		j.dump, j.err = d, errString(err)
		if j.want != "" && err != nil {
			s.Fail("rejected", "%s: well-formed file rejected: %v: %s", j.name, err, clipSrc(j.src))
		}
		if j.want != "" && d != j.want {
			s.Fail("tree", "%s: wrong tree: %s: %s", j.name, firstDiff(d, j.want), clipSrc(j.src))
		}
		s.EventStr(j.name, j.err)
	}
	simrt.Restart()
	shared := gotoken.NewFileSet()
	ntasks := 2 + knobs.Pick(4, 3, 2, 1)
	note(s, "%d files, %d variants, %d tasks", len(files), len(jobs), ntasks)
	type parsed struct {
		job  *parseJob
		fset *gotoken.FileSet
		tree *thriftfile.File
		dump string
		err  error
	}
	var done []*parsed
	total := 0
	for _, j := range jobs {
		total += len(j.src)
	}
	for i := range ntasks {
		var mine []*parseJob
		for range 1 + knobs.Pick(3, 3, 2, 1) {
			mine = append(mine, jobs[knobs.N(len(jobs))])
		}
		fset := shared
		own := knobs.N(6) == 5
		if own {
			fset = gotoken.NewFileSet()
		}
		reuse := knobs.N(2) == 1
		sharedSrc := knobs.N(4) == 3
		s.Go(fmt.Sprintf("parser%d", i), func() {
			var buf []byte
			for _, j := range mine {
				src := j.src
				if !sharedSrc {
					if !reuse || len(buf) < len(j.src) {
						buf = make([]byte, len(j.src)+100)
					}
					n := copy(buf, j.src)
					src = buf[:n:n]
				}
				s.Limit(100_000 + 3000*int64(len(src)))
				f, err := thriftfile.Parse(fset, j.name, src)
				s.Unlimit()
				if !bytes.Equal(src, j.src) {
					s.Fail("input-modified", "%s: Parse changed its input", j.name)
				}
				d, derr := treeDump(fset, j.name, j.src, f)
				if derr != nil {
					s.Fail("position", "%s: %v", j.name, derr)
				}
				if e := errString(err); e != j.err {
					s.Fail("error", "%s: among others: error %q; alone: %q", j.name, e, j.err)
				}
				if d != j.dump {
					s.Fail("tree", "%s: among others the tree differs: %s", j.name, firstDiff(d, j.dump))
				}
				done = append(done, &parsed{j, fset, f, d, err})
				if !sharedSrc {
					for i := range src {
						src[i] = '?'
					}
				}
				simrt.Yield()
			}
		})
	}
	s.Policy(total * ntasks * 20)
	s.Run()
	// The trees stay what they were, and the file sets know all files.
	want := map[*gotoken.FileSet][]string{}
	byName := map[string][]byte{}
	for _, p := range done {
		d, err := treeDump(p.fset, p.job.name, p.job.src, p.tree)
		if err != nil || d != p.dump {
			s.Fail("tree", "%s: the tree changed after Parse had returned (or with another tree): %s", p.job.name, firstDiff(d, p.dump))
		}
		if e := errString(p.err); e != p.job.err {
			s.Fail("error", "%s: the error changed after Parse had returned: %q; was %q", p.job.name, e, p.job.err)
		}
		scribble(reflect.ValueOf(p.tree)) // a tree is its owner's: the others do not change with it
		want[p.fset] = append(want[p.fset], fmt.Sprintf("%s %d", p.job.name, len(p.job.src)))
		byName[p.job.name] = p.job.src
	}
	for _, p := range done {
		w := want[p.fset]
		if w == nil {
			continue
		}
		delete(want, p.fset)
		var got []string
		p.fset.Iterate(func(f *gotoken.File) bool {
			got = append(got, fmt.Sprintf("%s %d", f.Name(), f.Size()))
			src := byName[f.Name()]
			if len(src) != f.Size() {
				return true
			}
			offs := []int{0, len(src)}
			for range 6 {
				offs = append(offs, knobs.N(len(src)+1))
			}
			for _, off := range offs {
				pos := p.fset.Position(f.Pos(off))
				line, col := positionOf(src, off)
				if pos.Filename != f.Name() || pos.Offset != off || pos.Line != line || pos.Column != col {
					s.Fail("position", "offset %d of %s, which is %d:%d, resolves to %v (offset %d)", off, f.Name(), line, col, pos, pos.Offset)
				}
			}
			return true
		})
		slices.Sort(got)
		slices.Sort(w)
		if !slices.Equal(got, w) {
			s.Fail("position", "the file set has %s; parsed were %s", strings.Join(got, ", "), strings.Join(w, ", "))
		}
	}
}

// scribble overwrites whatever can be reached from v.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Interface:
		scribble(v.Elem())
	case reflect.Struct:
		for i := range v.NumField() {
			scribble(v.Field(i))
		}
	case reflect.Slice:
		v = v.Slice(0, v.Cap())
		for i := range v.Len() {
			scribble(v.Index(i))
			if v.Index(i).CanSet() {
				v.Index(i).SetZero()
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("overwritten")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(-1)
		}
	}
}
