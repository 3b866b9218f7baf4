package main

// Aliasing discipline. The extraction gives slices and pointers value semantics, so a second reference to
// mutable state that outlives the statement would be invisible to the verifier. This pass finds every place
// where a slice or pointer reachable from a receiver, parameter or mutable package variable is stored
// (assignment to a field or element, composite literal, append, return) and rejects the function unless the
// contract file lists the site with a reason (@share).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

func refType(ty types.Type) bool {
	switch ty.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface, *types.Map:
		return true
	}
	return false
}

// sinks calls f for every expression whose value is stored or returned.
func (t *Tr) sinks(fi *FnInfo, f func(x ast.Expr, what string)) {
	// x = y; y = z: the reference in y is moved
	moved := map[ast.Stmt]bool{}
	ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
		if b, ok := n.(*ast.BlockStmt); ok {
			for i := 0; i+1 < len(b.List); i++ {
				p, pok := b.List[i].(*ast.AssignStmt)
				q, qok := b.List[i+1].(*ast.AssignStmt)
				if pok && qok && p.Tok == token.ASSIGN && q.Tok == token.ASSIGN && len(p.Lhs) == 1 && len(q.Lhs) == 1 && t.text(p.Rhs[0]) == t.text(q.Lhs[0]) && isNil(q.Rhs[0]) {
					moved[p] = true
				}
			}
		}
		return true
	})
	var lits func(n ast.Node)
	lits = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch s := m.(type) {
			case *ast.CompositeLit:
				for _, el := range s.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						el = kv.Value
					}
					f(el, "composite literal")
				}
			case *ast.AssignStmt:
				if len(s.Lhs) != len(s.Rhs) || moved[s] {
					return true
				}
				if len(s.Lhs) == 2 && t.text(s.Lhs[0]) == t.text(s.Rhs[1]) && t.text(s.Lhs[1]) == t.text(s.Rhs[0]) {
					return true // swap
				}
				for i, l := range s.Lhs {
					l = ast.Unparen(l)
					if id, ok := l.(*ast.Ident); ok {
						v := t.varOf(id)
						if v == nil || v.Parent() != t.pkg.Scope() {
							continue
						}
					}
					r := ast.Unparen(s.Rhs[i])
					if c, ok := r.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && (t.text(c.Args[0]) == t.text(l) || t.prefixOf(c.Args[0], l)) {
							continue // elements handled below
						}
					}
					if se, ok := r.(*ast.SliceExpr); ok && t.text(se.X) == t.text(l) {
						continue
					}
					f(r, "assignment to "+t.text(l))
				}
			case *ast.ReturnStmt:
				if fi.retPlace != nil {
					return true
				}
				for _, r := range s.Results {
					f(r, "result")
				}
			case *ast.CallExpr:
				if id, ok := s.Fun.(*ast.Ident); ok && id.Name == "append" {
					if !s.Ellipsis.IsValid() {
						for _, a := range s.Args[1:] {
							f(a, "append")
						}
					}
					return true
				}
				if ext := t.extCall(s); ext == "container/heap.Push" {
					f(s.Args[1], "heap")
				}
				if cf := t.calleeOf(s); cf != nil {
					for i, p := range cf.params {
						if i < len(s.Args) && t.escapes[p] {
							f(s.Args[i], "argument of "+cf.key)
						}
					}
				}
			}
			return true
		})
	}
	lits(fi.decl.Body)
}

func (t *Tr) prefixOf(x, l ast.Expr) bool {
	se, ok := ast.Unparen(x).(*ast.SliceExpr)
	return ok && t.text(se.X) == t.text(l)
}

func (t *Tr) text(n ast.Node) string { e := &Em{t: t}; return e.srcText(n) }

// origin strips x to a variable it aliases (nil if it is fresh).
func (t *Tr) origin(fi *FnInfo, x ast.Expr) (*types.Var, bool) {
	x = ast.Unparen(x)
	tv, ok := t.info.Types[x]
	if ok && tv.Type != nil && !refType(tv.Type) {
		return nil, false
	}
	switch y := x.(type) {
	case *ast.CallExpr:
		if id, ok := y.Fun.(*ast.Ident); ok && id.Name == "append" {
			return t.origin(fi, y.Args[0])
		}
		if ftv, ok := t.info.Types[y.Fun]; ok && ftv.IsType() && len(y.Args) == 1 {
			if a, ok := t.info.Types[y.Args[0]]; ok && a.Type != nil && refType(a.Type) {
				return t.origin(fi, y.Args[0])
			}
			return nil, false
		}
		if cf := t.calleeOf(y); cf == nil || cf.retPlace == nil {
			return nil, false
		}
	case *ast.UnaryExpr:
		if y.Op == token.AND {
			if _, comp := y.X.(*ast.CompositeLit); comp {
				return nil, false
			}
		}
	}
	v := t.root(x)
	for i := 0; v != nil && i < 20; i++ {
		a, ok := fi.alias[v]
		if !ok {
			break
		}
		x = a
		v = t.root(a)
	}
	_, whole := ast.Unparen(x).(*ast.Ident)
	return v, whole
}

func (t *Tr) computeEscapes() {
	t.escapes = map[*types.Var]bool{}
	for changed := true; changed; {
		changed = false
		for _, fi := range t.order {
			if fi.decl.Body == nil {
				continue
			}
			ps := map[*types.Var]bool{}
			for _, p := range fi.params {
				ps[p] = true
			}
			t.sinks(fi, func(x ast.Expr, what string) {
				if v, whole := t.origin(fi, x); v != nil && whole && ps[v] && !t.escapes[v] {
					t.escapes[v] = true
					changed = true
				}
			})
		}
	}
}

// aliasErrors lists the unlisted stores of mutable references in fi.
func (t *Tr) aliasErrors(fi *FnInfo) []string {
	if fi.decl.Body == nil {
		return nil
	}
	var out []string
	ps := map[*types.Var]bool{}
	if fi.recv != nil {
		ps[fi.recv] = true
	}
	for _, p := range fi.params {
		ps[p] = true
	}
	t.sinks(fi, func(x ast.Expr, what string) {
		v, whole := t.origin(fi, x)
		if v == nil {
			return
		}
		bad := false
		if v.Parent() == t.pkg.Scope() {
			bad = t.globalMut[v]
		} else if ps[v] {
			bad = !whole || v == fi.recv
		}
		if !bad {
			return
		}
		k := fi.key + ": " + t.text(x)
		if _, ok := t.spec.share[k]; ok {
			t.spec.shareUsed[k] = true
			return
		}
		out = append(out, fmt.Sprintf("a second reference to mutable state is kept (%s, %s)", t.text(x), what))
	})
	return out
}
