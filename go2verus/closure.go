package main

// Function values. A parameter of function type becomes a generic Fn parameter; a literal passed for it becomes
// an exec closure with the contract given under "@at closure N". A local bound to a literal (or to a function
// that only returns one) is expanded at its calls. sort.SliceStable and sort.Slice become go_sort, whose
// comparison takes the two elements in place of their positions.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

type litVal struct {
	lit *ast.FuncLit
	em  *Em // where its free variables live
}

func isFuncType(ty types.Type) bool {
	_, ok := ty.Underlying().(*types.Signature)
	return ok
}

func (t *Tr) fnTrait(ty types.Type) string {
	sig := ty.Underlying().(*types.Signature)
	var ps []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, t.rtype(sig.Params().At(i).Type()))
	}
	r := ""
	if sig.Results().Len() == 1 {
		r = " -> " + t.rtype(sig.Results().At(0).Type())
	}
	return "Fn(" + strings.Join(ps, ", ") + ")" + r + " + Copy"
}

func (t *Tr) litParams(lit *ast.FuncLit) []*types.Var {
	var ps []*types.Var
	for _, f := range lit.Type.Params.List {
		for _, n := range f.Names {
			v, _ := t.info.Defs[n].(*types.Var)
			ps = append(ps, v)
		}
	}
	return ps
}

// asLit: the literal an expression denotes, if that is known here.
func (e *Em) asLit(x ast.Expr) *litVal {
	switch y := ast.Unparen(x).(type) {
	case *ast.FuncLit:
		return &litVal{y, e}
	case *ast.Ident:
		if v := e.t.varOf(y); v != nil {
			return e.lits[v]
		}
	case *ast.CallExpr:
		fi := e.t.calleeOf(y)
		if fi == nil || e.t.spec.fns[fi.key] != nil || fi.recv != nil || fi.decl.Body == nil || len(fi.decl.Body.List) != 1 {
			return nil
		}
		rs, ok := fi.decl.Body.List[0].(*ast.ReturnStmt)
		if !ok || len(rs.Results) != 1 {
			return nil
		}
		lit, ok := ast.Unparen(rs.Results[0]).(*ast.FuncLit)
		if !ok {
			return nil
		}
		sub := e.sub(fi)
		for i, p := range fi.params {
			if l := e.asLit(y.Args[i]); l != nil {
				sub.lits[p] = l
				continue
			}
			id, ok := ast.Unparen(y.Args[i]).(*ast.Ident)
			if !ok {
				return nil
			}
			v := e.t.varOf(id)
			if v == nil || e.fi.reassign[v] {
				return nil
			}
			sub.names[p] = e.vname(v)
		}
		e.t.inlined[fi.key+" in "+e.host.key] = true
		return &litVal{lit, sub}
	}
	return nil
}

func (e *Em) sub(fi *FnInfo) *Em {
	s := &Em{t: e.t, host: e.host, fi: fi, sp: e.sp, cnt: e.cnt, subst: map[*types.Var]string{}, kind: map[*types.Var]string{}, names: map[*types.Var]string{},
		lits: map[*types.Var]*litVal{}, stack: append(append([]*FnInfo{}, e.stack...), fi), ind: e.ind + 1, elem: e.elem, forbid: e.forbid}
	return s
}

// litBody emits the body of a literal as an expression.
func (e *Em) litBody(lit *ast.FuncLit) string {
	return e.capture(func() { e.inLit = true; e.inlineBody(lit.Body.List) })
}

func (e *Em) writesParam(lit *ast.FuncLit) bool {
	ps := map[*types.Var]bool{}
	for _, p := range e.t.litParams(lit) {
		ps[p] = true
	}
	bad := false
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if v := e.t.root(l); v != nil && ps[v] {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			if v := e.t.root(s.X); v != nil && ps[v] {
				bad = true
			}
		}
		return true
	})
	return bad
}

// callLit expands a call of a known literal.
func (e *Em) callLit(c *ast.CallExpr, lv *litVal) string {
	if e.writesParam(lv.lit) {
		e.fail(c, "a function literal writes its parameter")
	}
	if len(e.stack) > 8 {
		e.fail(c, "function literals too deep")
	}
	s := lv.em.sub(lv.em.fi)
	for k, v := range lv.em.subst {
		s.subst[k] = v
	}
	for k, v := range lv.em.kind {
		s.kind[k] = v
	}
	for k, v := range lv.em.names {
		s.names[k] = v
	}
	for k, v := range lv.em.lits {
		s.lits[k] = v
	}
	s.ind = e.ind + 1
	s.elem, s.forbid = e.elem, e.forbid
	var binds []string
	for i, p := range e.t.litParams(lv.lit) {
		a := ast.Unparen(c.Args[i])
		if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND && isPlaceExpr(u.X) {
			s.subst[p] = e.place(u.X, false)
			continue
		}
		if isRefLike(p.Type()) && isPlaceExpr(a) {
			s.subst[p] = e.place(a, false)
			continue
		}
		n := e.tmp("q")
		binds = append(binds, fmt.Sprintf("let %s: %s = %s;", n, e.t.rtype(p.Type()), e.val(a)))
		s.names[p] = n
		s.kind[p] = "own"
	}
	body := s.litBody(lv.lit)
	return "{\n" + strings.Join(append(binds, body), "\n") + "\n" + strings.Repeat("  ", e.ind) + "}"
}

func (e *Em) closureSpec() string {
	e.cnt.lit++
	k := fmt.Sprintf("closure %d", e.cnt.lit)
	if e.sp == nil {
		return ""
	}
	s, ok := e.sp.at[k]
	if ok {
		e.sp.atUsed[k] = true
	}
	return strings.TrimSpace(s)
}

// closure emits a literal as an exec closure.
func (e *Em) closure(lit *ast.FuncLit) string {
	spec := e.closureSpec()
	s := e.sub(e.fi)
	for k, v := range e.subst {
		s.subst[k] = v
	}
	for k, v := range e.kind {
		s.kind[k] = v
	}
	for k, v := range e.names {
		s.names[k] = v
	}
	for k, v := range e.lits {
		s.lits[k] = v
	}
	var ps []string
	for _, p := range e.t.litParams(lit) {
		if isRefLike(p.Type()) {
			e.fail(lit, "reference parameter of a function literal")
		}
		s.kind[p] = "own"
		ps = append(ps, rname(p.Name())+": "+e.t.rtype(p.Type()))
	}
	sig := e.typeOf(lit).(*types.Signature)
	r := ""
	if sig.Results().Len() == 1 {
		r = " -> (r: " + e.t.rtype(sig.Results().At(0).Type()) + ")"
	}
	return "|" + strings.Join(ps, ", ") + "|" + r + " " + spec + " {\n" + s.litBody(lit) + "\n" + strings.Repeat("  ", e.ind) + "}"
}

func (e *Em) funcArg(a ast.Expr) string {
	switch x := ast.Unparen(a).(type) {
	case *ast.FuncLit:
		return e.closure(x)
	case *ast.Ident:
		if v := e.t.varOf(x); v != nil && e.lits[v] == nil && !e.fi.reassign[v] {
			return e.vname(v)
		}
	}
	e.fail(a, "function value")
	return ""
}

// sortCall: sort.SliceStable(s[lo:], func(i, j int) bool { ... s[lo+i] ... s[lo+j] ... })
func (e *Em) sortCall(c *ast.CallExpr) string {
	lv := e.asLit(c.Args[1])
	if lv == nil {
		e.fail(c, "comparison of a sort")
	}
	arg := ast.Unparen(c.Args[0])
	name := arg // what the comparison indexes
	lowTxt := ""
	low := "0i64"
	base := arg
	if id, ok := arg.(*ast.Ident); ok {
		if v := e.t.varOf(id); v != nil {
			if a, ok := e.sliceAlias[v]; ok {
				base = a
			}
		}
	}
	if se, ok := base.(*ast.SliceExpr); ok {
		if se.High != nil || se.Slice3 {
			e.fail(c, "sort of an inner part")
		}
		if se.Low != nil {
			low = e.asI64(se.Low)
			if base == arg {
				lowTxt = e.srcText(se.Low)
			}
		}
		if base == arg {
			name = se.X
		}
		base = se.X
	}
	ps := e.t.litParams(lv.lit)
	if len(ps) != 2 {
		e.fail(c, "comparison of a sort")
	}
	nameTxt := e.srcText(name)
	elemT := e.t.rtype(e.typeOf(arg).Underlying().(*types.Slice).Elem())
	s := lv.em.sub(lv.em.fi)
	for k, v := range lv.em.subst {
		s.subst[k] = v
	}
	for k, v := range lv.em.kind {
		s.kind[k] = v
	}
	for k, v := range lv.em.names {
		s.names[k] = v
	}
	for k, v := range lv.em.lits {
		s.lits[k] = v
	}
	s.forbid = map[*types.Var]bool{ps[0]: true, ps[1]: true}
	s.elem = func(x *ast.IndexExpr) (string, bool) {
		if e.srcText(x.X) != nameTxt {
			return "", false
		}
		ix := ast.Unparen(x.Index)
		if lowTxt != "" {
			b, ok := ix.(*ast.BinaryExpr)
			if !ok || b.Op != token.ADD {
				e.fail(x, "index in the comparison of a sort")
			}
			switch lowTxt {
			case e.srcText(b.X):
				ix = ast.Unparen(b.Y)
			case e.srcText(b.Y):
				ix = ast.Unparen(b.X)
			default:
				e.fail(x, "index in the comparison of a sort")
			}
		}
		if id, ok := ix.(*ast.Ident); ok {
			switch e.t.varOf(id) {
			case ps[0]:
				return "__a", true
			case ps[1]:
				return "__b", true
			}
		}
		e.fail(x, "index in the comparison of a sort")
		return "", false
	}
	spec := e.closureSpec()
	ord := ""
	if e.sp != nil {
		k := fmt.Sprintf("order %d", e.cnt.lit)
		ord = strings.TrimSpace(e.sp.at[k])
		e.sp.atUsed[k] = true
	}
	if ord == "" {
		e.fail(c, "sort without a stated order")
	}
	body := s.litBody(lv.lit)
	m := e.refmut(base)
	return fmt.Sprintf("go_sort(%s, %s, |__a: %s, __b: %s| -> (r: bool) %s {\n%s\n%s}, Ghost(%s))", m, low, elemT, elemT, spec, body, strings.Repeat("  ", e.ind), ord)
}
