package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type FnInfo struct {
	key      string
	decl     *ast.FuncDecl
	obj      *types.Func
	recv     *types.Var
	params   []*types.Var
	mut      map[*types.Var]bool
	alias    map[*types.Var]ast.Expr // local -> initializing place
	elemMut  map[*types.Var]bool     // locals mutated through (fields, elements)
	reassign map[*types.Var]bool     // variables assigned as a whole
	retPlace ast.Expr
	nilable  bool
	globals  map[*types.Var]bool
}

type Tr struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	files []*ast.File
	funcs map[string]*FnInfo
	byObj map[*types.Func]*FnInfo
	order []*FnInfo
	spec  *Spec
	src   map[string][]byte
	// package level variables with literal initializers
	globalInit map[*types.Var]ast.Expr
	globalMut  map[*types.Var]bool
	escapes    map[*types.Var]bool
	inlined    map[string]bool
	probe      bool
	base       map[string]*baseFn // names of the locals the contracts were written for
	names      map[string]*baseFn // and those of this tree
	dropped    map[string][]string
}

func load(repo string) (*Tr, error) {
	t := &Tr{fset: token.NewFileSet(), funcs: map[string]*FnInfo{}, byObj: map[*types.Func]*FnInfo{}, src: map[string][]byte{},
		globalInit: map[*types.Var]ast.Expr{}, globalMut: map[*types.Var]bool{}, spec: curSpec}
	ents, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(ents)
	for _, f := range ents {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(t.fset, f, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		skip := false
		for _, cg := range af.Comments {
			if cg.Pos() < af.Package && strings.Contains(cg.Text(), "go:build") {
				skip = true
			}
			for _, c := range cg.List {
				if cg.Pos() < af.Package && strings.HasPrefix(c.Text, "//go:build") {
					skip = true
				}
			}
		}
		if skip {
			fmt.Fprintf(os.Stderr, "note: %s has a build constraint, skipped\n", f)
			continue
		}
		t.src[f] = b
		t.files = append(t.files, af)
	}
	if t.spec != nil {
		for _, d := range t.spec.std {
			if err := t.loadStd(d); err != nil {
				return nil, err
			}
		}
	}
	t.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(t.fset, "source", nil)}
	t.pkg, err = conf.Check("dawg", t.fset, t.files, t.info)
	if err != nil {
		return nil, err
	}
	for _, f := range t.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				obj := t.info.Defs[d.Name].(*types.Func)
				fi := &FnInfo{decl: d, obj: obj, mut: map[*types.Var]bool{}, alias: map[*types.Var]ast.Expr{}, elemMut: map[*types.Var]bool{}, reassign: map[*types.Var]bool{}, globals: map[*types.Var]bool{}}
				sig := obj.Type().(*types.Signature)
				fi.key = d.Name.Name
				if r := sig.Recv(); r != nil {
					fi.recv = r
					fi.key = namedName(r.Type()) + "." + d.Name.Name
				}
				for i := 0; i < sig.Params().Len(); i++ {
					fi.params = append(fi.params, sig.Params().At(i))
				}
				if d.Body != nil && len(d.Body.List) == 1 && fi.recv != nil {
					if rs, ok := d.Body.List[0].(*ast.ReturnStmt); ok && len(rs.Results) == 1 {
						if u, ok := rs.Results[0].(*ast.UnaryExpr); ok && u.Op == token.AND {
							if _, comp := u.X.(*ast.CompositeLit); !comp {
								fi.retPlace = u.X
							}
						}
					}
				}
				t.funcs[fi.key] = fi
				t.byObj[obj] = fi
				t.order = append(t.order, fi)
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i, n := range vs.Names {
							v, _ := t.info.Defs[n].(*types.Var)
							if v == nil {
								continue
							}
							if i < len(vs.Values) {
								t.globalInit[v] = vs.Values[i]
							} else {
								t.globalInit[v] = nil
							}
						}
					}
				}
			}
		}
	}
	t.analyze()
	t.computeEscapes()
	t.inlined = map[string]bool{}
	return t, nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (t *Tr) varOf(id *ast.Ident) *types.Var {
	if o, ok := t.info.Uses[id]; ok {
		v, _ := o.(*types.Var)
		return v
	}
	if o, ok := t.info.Defs[id]; ok {
		v, _ := o.(*types.Var)
		return v
	}
	return nil
}

// loadStd adds functions of the standard library to the package, an interface replaced by a type of the package.
func (t *Tr) loadStd(d string) error {
	p := strings.SplitN(d, ":", 2)
	fs := strings.Fields(p[0])
	q := strings.SplitN(p[1], "=", 2)
	ifc, typ := strings.TrimSpace(q[0]), strings.TrimSpace(q[1])
	base := filepath.Base(fs[0])
	file := filepath.Join(build.Default.GOROOT, "src", fs[0], base+".go")
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, file, b, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	want := map[string]bool{}
	for _, f := range fs[1:] {
		want[f] = true
	}
	out := "package dawg\n"
	for _, dc := range af.Decls {
		fd, ok := dc.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || !want[fd.Name.Name] {
			continue
		}
		delete(want, fd.Name.Name)
		txt, at := "", fset.Position(fd.Pos()).Offset
		sel := map[*ast.Ident]bool{}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SelectorExpr:
				sel[n.Sel] = true
			case *ast.Ident:
				off := fset.Position(n.Pos()).Offset
				r := ""
				if sel[n] {
					return true
				}
				if n.Name == ifc {
					r = typ
				}
				for _, f := range fs[1:] {
					if n.Name == f {
						r = base + "_" + f
					}
				}
				if r != "" {
					txt += string(b[at:off]) + r
					at = off + len(n.Name)
				}
			}
			return true
		})
		out += txt + string(b[at:fset.Position(fd.End()).Offset]) + "\n"
	}
	for f := range want {
		return fmt.Errorf("%s: no function %s", file, f)
	}
	name := "std_" + base + ".go"
	nf, err := parser.ParseFile(t.fset, name, out, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	t.src[name] = []byte(out)
	t.files = append(t.files, nf)
	return nil
}

// calleeOf resolves a call to a function of the package (nil if it is something else).
func (t *Tr) calleeOf(c *ast.CallExpr) *FnInfo {
	if ext := t.extCall(c); ext != "" {
		return t.funcs[strings.ReplaceAll(ext[strings.LastIndex(ext, "/")+1:], ".", "_")]
	}
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		if o, ok := t.info.Uses[f].(*types.Func); ok {
			return t.byObj[o]
		}
	case *ast.SelectorExpr:
		if s, ok := t.info.Selections[f]; ok {
			if o, ok := s.Obj().(*types.Func); ok {
				if fi := t.byObj[o]; fi != nil {
					return fi
				}
				// method of an interface that the contracts instantiate at one struct
				if n := namedName(s.Recv()); t.spec != nil {
					if m, ok := t.spec.iface[n]; ok {
						return t.funcs[m+"."+o.Name()]
					}
				}
			}
		}
	}
	return nil
}

func (t *Tr) extCall(c *ast.CallExpr) string {
	if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if pn, ok := t.info.Uses[id].(*types.PkgName); ok {
				return pn.Imported().Path() + "." + s.Sel.Name
			}
		}
	}
	return ""
}

func (t *Tr) isIfaceMethod(c *ast.CallExpr) bool {
	if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if sel, ok := t.info.Selections[s]; ok && sel.Kind() == types.MethodVal {
			_, isI := sel.Recv().Underlying().(*types.Interface)
			return isI
		}
	}
	return false
}

// root strips a place expression to the variable that owns it.
func (t *Tr) root(e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if _, ok := t.info.Selections[x]; !ok {
				return nil
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.UnaryExpr:
			if x.Op != token.AND {
				return nil
			}
			e = x.X
		case *ast.CallExpr:
			fi := t.calleeOf(x)
			if fi != nil && fi.retPlace != nil {
				e = x.Fun.(*ast.SelectorExpr).X
				continue
			}
			return nil
		case *ast.Ident:
			return t.varOf(x)
		default:
			return nil
		}
	}
}

func isPlaceExpr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return isPlaceExpr(x.X)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.Ident:
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

func isRefLike(ty types.Type) bool {
	switch u := ty.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func (t *Tr) analyze() {
	// aliases
	for _, fi := range t.order {
		fi := fi
		if fi.decl.Body == nil {
			continue
		}
		rec := func(id *ast.Ident, val ast.Expr) {
			v, _ := t.info.Defs[id].(*types.Var)
			if v == nil || val == nil {
				return
			}
			if u, ok := val.(*ast.UnaryExpr); ok && u.Op == token.AND {
				if _, comp := u.X.(*ast.CompositeLit); !comp {
					fi.alias[v] = u.X
				}
				return
			}
			if c, ok := val.(*ast.CallExpr); ok {
				if cf := t.calleeOf(c); cf != nil && cf.retPlace != nil {
					fi.alias[v] = val
				}
				return
			}
			if isRefLike(v.Type()) && isPlaceExpr(val) {
				if s, ok := v.Type().Underlying().(*types.Basic); ok && s != nil {
					return
				}
				fi.alias[v] = val
			}
		}
		ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE && len(s.Lhs) == len(s.Rhs) {
					for i := range s.Lhs {
						if id, ok := s.Lhs[i].(*ast.Ident); ok {
							rec(id, s.Rhs[i])
						}
					}
				}
			case *ast.ValueSpec:
				for i, id := range s.Names {
					if i < len(s.Values) {
						rec(id, s.Values[i])
					}
				}
			case *ast.ReturnStmt:
				for i, r := range s.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
						sig := fi.obj.Type().(*types.Signature)
						if i < sig.Results().Len() {
							if _, isP := sig.Results().At(i).Type().Underlying().(*types.Pointer); isP {
								fi.nilable = true
							}
						}
					}
				}
			case *ast.Ident:
				if v := t.varOf(s); v != nil && v.Parent() == t.pkg.Scope() {
					fi.globals[v] = true
				}
			}
			return true
		})
	}
	for changed := true; changed; {
		changed = false
		for _, fi := range t.order {
			if fi.nilable || fi.decl.Body == nil {
				continue
			}
			ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
				if _, lit := n.(*ast.FuncLit); lit {
					return false
				}
				if r, ok := n.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
					if c, ok := ast.Unparen(r.Results[0]).(*ast.CallExpr); ok {
						if cf := t.calleeOf(c); cf != nil && cf.nilable {
							fi.nilable, changed = true, true
						}
					}
				}
				return true
			})
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fi := range t.order {
			if fi.decl.Body == nil {
				continue
			}
			isParam := map[*types.Var]bool{}
			if fi.recv != nil {
				isParam[fi.recv] = true
			}
			for _, p := range fi.params {
				isParam[p] = true
			}
			var mark func(v *types.Var)
			mark = func(v *types.Var) {
				if v == nil {
					return
				}
				if v.Parent() == t.pkg.Scope() {
					if !t.globalMut[v] {
						t.globalMut[v] = true
						changed = true
					}
					return
				}
				if isParam[v] {
					if !fi.mut[v] && isRefLike(v.Type()) {
						fi.mut[v] = true
						changed = true
					}
					if !isRefLike(v.Type()) {
						fi.reassign[v] = true
					}
					return
				}
				if !fi.elemMut[v] {
					fi.elemMut[v] = true
					changed = true
				}
				if a, ok := fi.alias[v]; ok {
					mark(t.root(a))
				}
			}
			lhs := func(e ast.Expr) {
				e = ast.Unparen(e)
				if id, ok := e.(*ast.Ident); ok {
					if v := t.varOf(id); v != nil {
						if v.Parent() == t.pkg.Scope() {
							mark(v)
						}
						fi.reassign[v] = true
					}
					return
				}
				mark(t.root(e))
			}
			ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						for _, l := range s.Lhs {
							lhs(l)
						}
					}
				case *ast.IncDecStmt:
					lhs(s.X)
				case *ast.CallExpr:
					if id, ok := s.Fun.(*ast.Ident); ok && id.Name == "copy" {
						if _, ok := t.info.Uses[id].(*types.Builtin); ok {
							mark(t.root(s.Args[0]))
							return true
						}
					}
					if ext := t.extCall(s); ext != "" {
						switch ext {
						case "container/heap.Push", "container/heap.Pop", "container/heap.Init", "container/heap.Fix",
							"sort.SliceStable", "sort.Slice", "encoding/binary.Write":
							mark(t.root(s.Args[0]))
						case "encoding/binary.Read":
							mark(t.root(s.Args[0]))
							mark(t.root(s.Args[2]))
						default:
							for _, a := range s.Args {
								if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
									mark(t.root(u.X))
								}
							}
						}
						return true
					}
					if cf := t.calleeOf(s); cf != nil {
						if cf.recv != nil && cf.mut[cf.recv] {
							if sel, ok := ast.Unparen(s.Fun).(*ast.SelectorExpr); ok {
								mark(t.root(sel.X))
							}
						}
						for i, p := range cf.params {
							if i < len(s.Args) && cf.mut[p] {
								mark(t.root(s.Args[i]))
							}
						}
						return true
					}
					if t.isIfaceMethod(s) {
						mark(t.root(ast.Unparen(s.Fun).(*ast.SelectorExpr).X))
					}
				}
				return true
			})
		}
	}
}
