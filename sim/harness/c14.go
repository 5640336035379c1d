//go:build go1.25

package main

import (
	"bytes"
	"fmt"
	gotoken "go/token"
	"reflect"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

func init() {
	register(&scenario{
		id: "C14", cap: 400_000_000, run: runC14, quick: 60000, thorough: 1800000, real: []string{"tools/thriftfile (parser, scanner)", "go/token of the Go library"},
		stub: []string{"scheduler", "storage: files with cut, zeroed, torn, lost, repeated, flipped and overwritten blocks"},
		rule: "A run is 1 to 3 tasks that each parse 4 to 10 damaged versions of a generated file, with step and allocation budgets; every run has injected storage faults and is non-trivial.",
	})
}

func runC14(s *simrt.Sim) {
	inFlight = 0
	knobs := s.Src.Stream("knobs")
	st := s.Src.Stream("idl")
	fs := s.Src.Stream("fault")
	old := genIDL(st, true).src
	shared := gotoken.NewFileSet()
	ntasks := 1 + knobs.Pick(3, 2, 1)
	small := ntasks > 1 || knobs.N(2) == 0
	for i := range ntasks {
		f := genIDL(st, small)
		n := 4 + fs.N(7)
		var ds []damaged
		for range n {
			if fs.N(4) == 3 {
				ds = append(ds, damageToken(s, fs, f))
				continue
			}
			ds = append(ds, damageFile(s, fs, f, old))
		}
		note(s, "file of %d items, %d bytes; %d damaged versions", len(f.items), len(f.src), n)
		s.Go(fmt.Sprintf("parser%d", i), func() {
			for k, d := range ds {
				s.Event(d.kind, uint64(d.from))
				checkDamaged(s, shared, fmt.Sprintf("f%d-%d.thrift", i, k), f, d)
			}
		})
	}
	s.Run()
}

// checkAlloc is what the checks allocated, possibly while another task was in the middle of a parse.
var checkAlloc uint64

// What the parses that are under way, and those that have ended, may have allocated.
var inFlight, endedParses uint64

func checkDamaged(s *simrt.Sim, fset *gotoken.FileSet, name string, f *idlFile, d damaged) {
	tell := func() string {
		return fmt.Sprintf("%s at %d of %d: %s", d.kind, d.from, len(f.src), clipSrc(d.src))
	}
	src := bytes.Clone(d.src)
	limit := uint64(512<<10) + 3000*uint64(len(src))
	inFlight += limit
	a0, c0, e0 := totalAlloc(), checkAlloc, endedParses
	s.Limit(50_000 + 600*int64(len(src)))
	tree, err := thriftfile.Parse(fset, name, src)
	used := s.Unlimit()
	a1 := totalAlloc()
	alloc := a1 - a0 - (checkAlloc - c0)
	// The parses of other tasks that were under way at any time meanwhile.
	others := inFlight + (endedParses - e0) - limit
	inFlight -= limit
	endedParses += limit
	defer func() { checkAlloc += totalAlloc() - a1 }()
	if alloc > limit+others {
		s.Fail("memory", "%s: Parse allocated %d bytes, limit %d", tell(), alloc, limit+others)
	}
	s.Event("steps", uint64(used))
	if tree == nil {
		s.Fail("nil-tree", "%s: Parse returned a nil tree", tell())
	}
	if !bytes.Equal(src, d.src) {
		s.Fail("input-modified", "%s: Parse changed its input", tell())
	}
	got, derr := treeDump(fset, name, src, tree)
	if derr != nil {
		s.Fail("position", "%s: %v", tell(), derr)
	}
	if bad := skipped(fset, name, src, tree, err); bad != "" {
		s.Fail("placeholder", "%s: %s", tell(), bad)
	}
	// Everything that ends before the damage, and cannot be extended by it.
	nh, nd, end := 0, 0, 0
	for i, it := range f.items {
		whole := it.to <= d.from && d.cut
		if i+1 < len(f.items) {
			whole = whole || f.items[i+1].key < d.from
		}
		if d.from >= len(f.src) && len(d.src) == len(f.src) {
			whole = true
		}
		if !whole {
			break
		}
		end = it.to
		var node any
		if it.header {
			if nh >= len(tree.Headers) {
				s.Fail("lost", "%s: header %d, which ends at %d, is missing", tell(), nh, it.to)
			}
			node = tree.Headers[nh]
			nh++
		} else {
			if nd >= len(tree.Defs) {
				s.Fail("lost", "%s: definition %d, which ends at %d, is missing", tell(), nd, it.to)
			}
			node = tree.Defs[nd]
			nd++
		}
		if g := dumpNode(node, 0); g != it.dump {
			s.Fail("not-intact", "%s: item %d, which ends at %d, is not intact: %s", tell(), i, it.to, firstDiff(g, it.dump))
		}
	}
	if bytes.Equal(d.src, f.src) && (err != nil || got != f.dump) {
		s.Fail("undamaged", "%s: error %v, %s", tell(), err, firstDiff(got, f.dump))
	}
	if d.cut && err == nil {
		for i, it := range f.items {
			if it.from < d.from && d.from <= it.last {
				s.Fail("no-error", "%s: item %d (%d to %d, last required token at %d) is cut and no error reported", tell(), i, it.from, it.to, it.last)
			}
			if it.opt < d.from && d.from < it.to {
				s.Fail("no-error", "%s: item %d (%d to %d) is cut inside its annotations and no error reported", tell(), i, it.from, it.to)
			}
		}
	}
	if d.cut && d.from == len(d.src) && err != nil {
		// What is left may be a whole file.
		clean := true
		for _, it := range f.items {
			if it.from < d.from && d.from < it.to {
				clean = false
			}
		}
		for _, c := range f.coms {
			if c.from < d.from && d.from < c.to {
				clean = false
			}
		}
		if bytes.HasPrefix(f.src, []byte("\ufeff")) && d.from < 3 {
			clean = false
		}
		if clean {
			s.Fail("rejected", "%s: what is left is well-formed, but: %v", tell(), err)
		}
	}
	if err != nil {
		line, col, ok := firstError(err, name)
		if !ok {
			s.Fail("error-position", "%s: error without the position in this file: %v", tell(), err)
		}
		off, in := offsetOf(d.src, line, col)
		if !in {
			s.Fail("error-position", "%s: the first error is outside the file: %v", tell(), err)
		}
		if off < end {
			s.Fail("error-position", "%s: the first error is at %d, inside an item that is intact: %v", tell(), off, err)
		}
	}
}

// skipped tells whether a placeholder hides the beginning of a definition behind the last error in it.
func skipped(fset *gotoken.FileSet, name string, src []byte, tree *thriftfile.File, err error) string {
	v := reflect.ValueOf(err)
	if err == nil || v.Kind() != reflect.Slice || v.Len() > 300 {
		return ""
	}
	var sc *refScan
	var errs []int
	for _, d := range tree.Defs {
		b, ok := d.(*thriftfile.BadDef)
		if !ok {
			continue
		}
		if sc == nil {
			if sc = scanIDL(src); len(sc.errs) > 0 {
				return "" // errors below the level of tokens are reported while skipping, too
			}
			for i := range v.Len() {
				one, isErr := v.Index(i).Interface().(error)
				if !isErr {
					return ""
				}
				e, _ := takeError(src, name, one.Error())
				errs = append(errs, e.off)
			}
		}
		from, to, last := fset.Position(b.From).Offset, fset.Position(b.To).Offset, -1
		for _, off := range errs {
			if from <= off && off <= to {
				last = max(last, off)
			}
		}
		if last < 0 {
			return fmt.Sprintf("the placeholder from %d to %d is for no error", from, to)
		}
		for _, t := range sc.toks {
			if t.from >= last && t.from < to && startsDef([]byte(t.kind)) {
				return fmt.Sprintf("the placeholder from %d to %d hides the definition at %d", from, to, t.from)
			}
		}
	}
	return ""
}
