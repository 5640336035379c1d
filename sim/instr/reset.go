package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Package-level variables of the code under test are reinitialised at every simulated process restart, so
// that what one run stores in them does not reach the next: unexported ones whose initial value is zero or
// made by a literal, make, new, or a constructor, and which nothing else uses during package initialisation.

// initReferences lists the variables that init functions and initialisers of other variables use.
func initReferences(info *types.Info, files []*ast.File) map[types.Object]bool {
	refs := map[types.Object]bool{}
	bodies := map[types.Object]*ast.FuncDecl{}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				bodies[info.Defs[fd.Name]] = fd
			}
		}
	}
	seen := map[types.Object]bool{}
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			switch o := info.Uses[id].(type) {
			case *types.Var:
				refs[o] = true
			case *types.Func:
				if fd := bodies[o]; fd != nil && !seen[o] {
					seen[o] = true
					visit(fd.Body)
				}
			}
			return true
		})
	}
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					visit(d.Body)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						for _, v := range s.(*ast.ValueSpec).Values {
							visit(v)
						}
					}
				}
			}
		}
	}
	return refs
}

func (in *inst) resets(f *ast.File, initRefs map[types.Object]bool) {
	var sb strings.Builder
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
	specs:
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) != 0 && len(vs.Values) != len(vs.Names) {
				continue
			}
			for i, n := range vs.Names {
				if n.Name == "_" || n.IsExported() || initRefs[in.info.Defs[n]] || len(vs.Values) > 0 && !in.pure(vs.Values[i]) {
					continue specs
				}
			}
			for i, n := range vs.Names {
				if len(vs.Values) == 0 {
					sb.WriteString("\t\t{ var zz " + in.text(vs.Type) + "; " + n.Name + " = zz }\n")
				} else {
					sb.WriteString("\t\t" + n.Name + " = " + in.text(vs.Values[i]) + "\n")
				}
			}
		}
	}
	if sb.Len() > 0 {
		in.addTail("func init() {\n\tzzsimrt.OnRestart(func() {\n" + sb.String() + "\t})\n}\n")
	}
}

// pure tells an expression that makes the same value again.
func (in *inst) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.CallExpr:
			id, isID := n.Fun.(*ast.Ident)
			if !isID {
				ok = false
				break
			}
			switch in.info.Uses[id].(type) {
			case *types.Builtin:
				ok = ok && (id.Name == "make" || id.Name == "new")
			case *types.Func:
				ok = ok && len(n.Args) == 0 && (strings.HasPrefix(id.Name, "new") || strings.HasPrefix(id.Name, "make"))
			case *types.TypeName:
			default:
				ok = false
			}
		case *ast.SelectorExpr:
			switch in.info.Uses[n.Sel].(type) {
			case *types.Const, *types.TypeName:
			default:
				ok = false
			}
			return false
		case *ast.Ident:
			switch o := in.info.Uses[n].(type) {
			case *types.Var:
				ok = ok && o.IsField()
			}
		}
		return ok
	})
	return ok
}
