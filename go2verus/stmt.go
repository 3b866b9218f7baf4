package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func (e *Em) flushPre() {
	p := e.pre
	e.pre = nil
	for _, l := range p {
		e.line("%s", l)
	}
}

func (e *Em) srcText(n ast.Node) string {
	if x, ok := n.(ast.Expr); ok {
		n = ast.Unparen(x)
		if s, ok := n.(*ast.StarExpr); ok {
			return "*" + e.srcText(s.X)
		}
	}
	p0, p1 := e.t.fset.Position(n.Pos()), e.t.fset.Position(n.End())
	s := string(e.t.src[p0.Filename][p0.Offset:p1.Offset])
	return strings.Join(strings.Fields(s), "")
}

func (e *Em) at(key string) {
	if e.sp == nil {
		return
	}
	if txt, ok := e.sp.at[key]; ok {
		e.sp.atUsed[key] = true
		e.line("//@@at %s\n%s\n%s", key, strings.TrimRight(txt, "\n"), markEnd)
	}
}

// calls lists the names of the calls in the header of a statement, in source order.
func (e *Em) calls(s ast.Stmt) [][2]string {
	var r [][2]string
	visit := func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(m ast.Node) bool {
			switch c := m.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.CallExpr:
				switch f := ast.Unparen(c.Fun).(type) {
				case *ast.Ident:
					r = append(r, [2]string{f.Name, e.srcText(c)})
				case *ast.SelectorExpr:
					r = append(r, [2]string{f.Sel.Name, e.srcText(c)})
				}
			}
			return true
		})
	}
	switch s := s.(type) {
	case *ast.IfStmt:
		if s.Init != nil {
			visit(s.Init)
		}
		visit(s.Cond)
	case *ast.ForStmt, *ast.RangeStmt, *ast.BlockStmt, *ast.SwitchStmt:
	default:
		visit(s)
	}
	return r
}

func (e *Em) stmts(list []ast.Stmt) {
	for i, s := range list {
		e.next = nil
		if i+1 < len(list) {
			e.next = list[i+1]
		}
		e.stmt(s)
	}
}

func (e *Em) stmt(s ast.Stmt) {
	if e.mute != nil && s == e.mute {
		e.mute = nil
		e.at("return *")
		e.stmt1(s)
		return
	}
	var keys []string
	mark := func(kind, name string, count map[string]int, txt string) {
		count[name]++
		k := kind + " " + name
		e.cnt.marks[k] = append(e.cnt.marks[k], txt)
		if a := e.cnt.al; a != nil {
			k = rename(k, a.olds)
		}
		keys = append(keys, fmt.Sprintf("%s %d", k, e.cnt.al.mark(k, count[name])))
	}
	for _, n := range e.calls(s) {
		mark("call", n[0], e.cnt.call, n[1])
	}
	if a, ok := s.(*ast.AssignStmt); ok {
		for i, l := range a.Lhs {
			v := ""
			if len(a.Rhs) == len(a.Lhs) {
				v = a.Tok.String() + e.srcText(a.Rhs[i])
			}
			mark("assign", e.srcText(l), e.cnt.assign, v)
		}
	}
	if a, ok := s.(*ast.IncDecStmt); ok {
		mark("assign", e.srcText(a.X), e.cnt.assign, a.Tok.String())
	}
	for _, k := range keys {
		e.at("before " + k)
	}
	if _, ok := s.(*ast.ReturnStmt); ok && e.fi == e.host {
		e.cnt.ret++
		txt := ""
		for _, r := range s.(*ast.ReturnStmt).Results {
			txt += e.srcText(r) + ";"
		}
		e.cnt.rets = append(e.cnt.rets, txt)
		if n := e.cnt.al.ret(e.cnt.ret); n > 0 {
			e.at(fmt.Sprintf("return %d", n))
		} else if len(s.(*ast.ReturnStmt).Results) == 0 {
			e.at("exit")
		}
		e.late = false
		if e.sp != nil && len(s.(*ast.ReturnStmt).Results) == 1 && len(e.calls(s)) > 0 {
			_, e.late = e.sp.at["return *"]
		}
		if !e.late {
			e.at("return *")
		}
	}
	e.stmt1(s)
	for _, k := range keys {
		e.at("after " + k)
	}
}

func (e *Em) declVar(id *ast.Ident, v *types.Var, val ast.Expr) {
	if id.Name == "_" {
		if val != nil {
			s := e.val(val)
			e.flushPre()
			e.line("let _ = %s;", s)
		}
		return
	}
	if isFuncType(v.Type()) {
		if val == nil || e.fi.reassign[v] {
			e.fail(id, "function variable")
		}
		lv := e.asLit(val)
		if lv == nil {
			e.fail(id, "function variable")
		}
		e.lits[v] = lv
		return
	}
	if se, ok := val.(*ast.SliceExpr); ok && e.onlySorted(v) && !e.fi.reassign[v] {
		e.sliceAlias[v] = se
		return
	}
	n := rname(id.Name)
	rt := e.t.rtype(v.Type())
	if val == nil {
		e.kind[v] = "own"
		e.line("let mut %s: %s = %s;", n, rt, e.t.zero(v.Type()))
		return
	}
	val = ast.Unparen(val)
	if a, isAlias := e.fi.alias[v]; isAlias && !(e.t.isCopy(deref(v.Type())) && !isPtrTo(val)) {
		mut := e.fi.elemMut[v]
		if e.fi.reassign[v] {
			if mut {
				e.fail(id, "local %s aliases %s and is both reassigned and written through", id.Name, e.srcText(a))
			}
			// value semantics: only the slice header is changed
			e.kind[v] = "own"
			r := e.ref(a)
			e.flushPre()
			e.line("let mut %s: %s = go_share(%s);", n, rt, r)
			return
		}
		if mut {
			p := e.place(a, true)
			e.flushPre()
			e.kind[v] = "refmut"
			e.line("let %s: &mut %s = &mut %s;", n, rt, p)
		} else {
			p := e.ref(a)
			e.flushPre()
			e.kind[v] = "ref"
			e.line("let %s: &%s = %s;", n, rt, p)
		}
		return
	}
	s := e.moveVal(val)
	e.flushPre()
	e.kind[v] = "own"
	e.line("let mut %s: %s = %s;", n, rt, s)
}

func isPtrTo(val ast.Expr) bool {
	switch x := val.(type) {
	case *ast.UnaryExpr:
		return x.Op == token.AND
	case *ast.CallExpr:
		return true
	}
	return false
}

func (e *Em) stmt1(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		e.line("{")
		e.ind++
		e.stmts(s.List)
		e.ind--
		e.line("}")
	case *ast.ExprStmt:
		v := e.exprStmt(s.X)
		e.flushPre()
		e.line("%s;", v)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok == token.CONST || gd.Tok == token.TYPE {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, n := range vs.Names {
				var val ast.Expr
				if i < len(vs.Values) {
					val = vs.Values[i]
				}
				v, _ := e.t.info.Defs[n].(*types.Var)
				e.declVar(n, v, val)
			}
		}
	case *ast.IncDecStmt:
		p := e.place(s.X, true)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		one := "1" + e.t.rtype(e.typeOf(s.X))
		e.flushPre()
		e.line("%s = %s;", p, e.binary(s, op, p, one, e.typeOf(s.X), s.X))
	case *ast.AssignStmt:
		e.assign(s)
	case *ast.ReturnStmt:
		e.ret(s)
	case *ast.BranchStmt:
		lbl, ctx := "", loopCtx{}
		if n := len(e.loops); n > 0 {
			ctx = e.loops[n-1]
		}
		if s.Label != nil {
			lbl = " '" + s.Label.Name
			ctx.label = ""
			for _, c := range e.loops {
				if c.label == s.Label.Name {
					ctx = c
				}
			}
			if ctx.label == "" {
				e.fail(s, "label")
			}
		}
		switch s.Tok {
		case token.BREAK:
			e.line("break%s;", lbl)
		case token.CONTINUE:
			if ctx.post != "" {
				e.line("%s", ctx.post)
			}
			e.line("continue%s;", lbl)
		default:
			e.fail(s, "branch %s", s.Tok)
		}
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			e.label = s.Label.Name
		}
		e.stmt1(s.Stmt)
	case *ast.IfStmt:
		e.ifStmt(s)
	case *ast.ForStmt, *ast.RangeStmt:
		if f, ok := s.(*ast.ForStmt); ok {
			e.forStmt(f)
		} else {
			e.rangeStmt(s.(*ast.RangeStmt))
		}
		if e.flag != nil && len(e.loops) > 0 && containsReturn(s) {
			e.line("if %s { break; }", e.flag.done)
		}
	case *ast.SwitchStmt:
		e.switchStmt(s)
	default:
		e.fail(s, "statement %T", s)
	}
}

func (e *Em) exprStmt(x ast.Expr) string {
	if c, ok := ast.Unparen(x).(*ast.CallExpr); ok {
		// f(x[lo:hi]) where f writes its argument: copy in, copy out
		if fi := e.t.calleeOf(c); fi != nil && fi.recv == nil && e.t.spec.fns[fi.key] != nil {
			for i, p := range fi.params {
				if se, ok := ast.Unparen(c.Args[i]).(*ast.SliceExpr); ok && fi.mut[p] && len(fi.params) == 1 {
					lo := "0i64"
					if se.Low != nil {
						lo = e.asI64(se.Low)
					}
					v := e.tmp("s")
					l := e.tmp("l")
					sv := e.sliceVal(se)
					pl := e.refmut(se.X)
					e.pre = append(e.pre, fmt.Sprintf("let %s: i64 = %s;", l, lo), fmt.Sprintf("let mut %s = %s;", v, sv),
						fmt.Sprintf("%s(&mut %s);", fi.decl.Name.Name, v))
					return fmt.Sprintf("go_put(%s, %s, &%s)", pl, l, v)
				}
			}
		}
		if ext := e.t.extCall(c); ext == "container/heap.Pop" {
			return "let _ = " + e.external(c, ext)
		}
	}
	return e.val(x)
}

func (e *Em) ret(s *ast.ReturnStmt) {
	if e.fi != e.host {
		if e.flag == nil || len(e.loops) == 0 {
			e.fail(s, "return in inlined function")
		}
		v := ""
		switch len(s.Results) {
		case 0:
			v = e.namedResults()
		case 1:
			v = e.retVal(s.Results[0])
		default:
			v = e.tuple(s)
		}
		e.flushPre()
		if v != "" {
			e.line("%s = %s;", e.flag.val, v)
		}
		e.line("%s = true;", e.flag.done)
		e.line("break;")
		return
	}
	switch len(s.Results) {
	case 0:
		if n := e.namedResults(); n != "" {
			e.line("return %s;", n)
		} else {
			e.line("return;")
		}
	case 1:
		if u, ok := s.Results[0].(*ast.UnaryExpr); ok && u.Op == token.AND && e.fi.retPlace != nil {
			p := e.place(u.X, false)
			e.flushPre()
			e.line("&%s", p)
			return
		}
		v := e.retVal(s.Results[0])
		e.flushPre()
		if e.late {
			// the ghost text is about the state behind the calls
			e.line("let __ret = %s;", v)
			e.at("return *")
			v = "__ret"
		}
		e.line("return %s;", v)
	default:
		v := e.tuple(s)
		e.flushPre()
		e.line("return %s;", v)
	}
}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func (e *Em) sameText(a, b ast.Expr) bool { return e.srcText(a) == e.srcText(b) }

func (e *Em) setVar(l ast.Expr, p, v string) {
	e.flushPre()
	e.line("%s = %s;", p, v)
}

func (e *Em) lhsPlace(l ast.Expr) string {
	l = ast.Unparen(l)
	if id, ok := l.(*ast.Ident); ok {
		v := e.t.varOf(id)
		if v != nil && (e.kind[v] == "ref" || e.kind[v] == "refmut") && e.subst[v] == "" {
			e.fail(l, "assignment to reference variable %s", id.Name)
		}
	}
	return e.place(l, true)
}

func (e *Em) assign(s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		l, r := s.Lhs[0], s.Rhs[0]
		op := assignOps[s.Tok]
		if e.isString(l) && op == token.ADD {
			rv := e.ref(r)
			m := e.refmut(l)
			e.flushPre()
			e.line("go_extend(%s, %s);", m, rv)
			return
		}
		p := e.lhsPlace(l)
		v := e.val(r)
		e.flushPre()
		e.line("%s = %s;", p, e.binary(s, op, p, v, e.typeOf(l), r))
		return
	}
	if len(s.Lhs) == 1 {
		l, r := s.Lhs[0], ast.Unparen(s.Rhs[0])
		if s.Tok == token.DEFINE {
			id := l.(*ast.Ident)
			v, _ := e.t.info.Defs[id].(*types.Var)
			e.declVar(id, v, r)
			return
		}
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			v := e.val(r)
			e.flushPre()
			e.line("let _ = %s;", v)
			return
		}
		// x = append(x[:n], ...)
		if c, ok := r.(*ast.CallExpr); ok && e.srcText(c.Fun) == "append" && len(c.Args) > 1 {
			if se, ok := ast.Unparen(c.Args[0]).(*ast.SliceExpr); ok && se.High != nil && !se.Slice3 && e.sameText(se.X, l) && (se.Low == nil || e.srcText(se.Low) == "0") {
				var vs []string
				if !c.Ellipsis.IsValid() {
					for _, a := range c.Args[1:] {
						v := e.tmp("v")
						e.pre = append(e.pre, fmt.Sprintf("let %s = %s;", v, e.moveVal(a)))
						vs = append(vs, "go_push(%s, "+v+");")
					}
				}
				n := e.tmp("n")
				e.pre = append(e.pre, fmt.Sprintf("let %s: i64 = %s;", n, e.asI64(se.High)))
				if c.Ellipsis.IsValid() {
					v := e.tmp("v")
					e.pre = append(e.pre, "let "+v+" = "+e.bytesVal(c.Args[1])+";")
					vs = []string{"go_extend(%s, &" + v + ");"}
				}
				m := e.refmut(l)
				e.flushPre()
				e.line("go_truncate(%s, %s);", m, n)
				for _, v := range vs {
					e.line(v, m)
				}
				return
			}
		}
		// x = append(x, ...)
		if c, ok := r.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && e.sameText(c.Args[0], l) {
				if c.Ellipsis.IsValid() {
					y := e.ref(c.Args[1])
					m := e.refmut(l)
					e.flushPre()
					e.line("go_extend(%s, %s);", m, y)
					return
				}
				for _, a := range c.Args[1:] {
					v := ""
					if isNil(a) {
						v = e.t.zero(e.typeOf(c).Underlying().(*types.Slice).Elem())
					} else {
						v = e.moveVal(a)
					}
					m := e.refmut(l)
					e.flushPre()
					e.line("go_push(%s, %s);", m, v)
				}
				return
			}
		}
		// x = x[:n]
		if se, ok := r.(*ast.SliceExpr); ok && e.sameText(se.X, l) && !se.Slice3 {
			if se.Low == nil || e.srcText(se.Low) == "0" {
				if se.High == nil {
					return
				}
				n := e.asI64(se.High)
				m := e.refmut(l)
				t := e.tmp("n")
				e.flushPre()
				e.line("let %s: i64 = %s;", t, n)
				e.line("go_truncate(%s, %s);", m, t)
				return
			}
		}
		if isNil(r) {
			p := e.lhsPlace(l)
			e.setVar(l, p, e.t.zero(e.typeOf(l)))
			return
		}
		v := e.moveVal(r)
		p := e.lhsPlace(l)
		e.setVar(l, p, v)
		return
	}
	// multiple assignment
	if len(s.Rhs) == 1 {
		// v, ok := m[k]
		if ix, ok := ast.Unparen(s.Rhs[0]).(*ast.IndexExpr); ok {
			if _, isMap := e.typeOf(ix.X).Underlying().(*types.Map); isMap {
				id := ast.Unparen(ix.X).(*ast.Ident)
				v := e.t.varOf(id)
				if v == nil || v.Parent() != e.t.pkg.Scope() || e.t.globalMut[v] {
					e.fail(s, "map")
				}
				k := e.val(ix.Index)
				e.flushPre()
				t := e.tmp("m")
				e.line("let %s = g_%s(%s);", t, v.Name(), k)
				for i, l := range s.Lhs {
					id := l.(*ast.Ident)
					if id.Name == "_" {
						continue
					}
					if s.Tok == token.DEFINE && e.t.info.Defs[id] != nil {
						e.kind[e.t.info.Defs[id].(*types.Var)] = "own"
						e.line("let mut %s: %s = %s.%d;", rname(id.Name), e.t.rtype(e.t.info.Defs[id].Type()), t, i)
					} else {
						e.line("%s = %s.%d;", rname(id.Name), t, i)
					}
				}
				return
			}
		}
		if c, ok := ast.Unparen(s.Rhs[0]).(*ast.CallExpr); ok {
			v := e.call(c)
			e.flushPre()
			t := e.tmp("m")
			e.line("let %s = %s;", t, v)
			for i, l := range s.Lhs {
				id, isId := l.(*ast.Ident)
				if isId && id.Name == "_" {
					continue
				}
				if s.Tok == token.DEFINE && isId && e.t.info.Defs[id] != nil {
					e.kind[e.t.info.Defs[id].(*types.Var)] = "own"
					e.line("let mut %s: %s = %s.%d;", rname(id.Name), e.t.rtype(e.t.info.Defs[id].Type()), t, i)
				} else {
					p := e.lhsPlace(l)
					e.flushPre()
					e.line("%s = %s.%d;", p, t, i)
				}
			}
			return
		}
		e.fail(s, "multiple assignment")
	}
	if s.Tok == token.DEFINE {
		for i, l := range s.Lhs {
			id := l.(*ast.Ident)
			v, _ := e.t.info.Defs[id].(*types.Var)
			if v == nil {
				e.fail(s, "redeclaration")
			}
			// right-hand sides must not use the variables being declared: Go scoping ensures it
			e.declVar(id, v, s.Rhs[i])
		}
		return
	}
	if len(s.Lhs) == 2 && e.sameText(s.Lhs[0], s.Rhs[1]) && e.sameText(s.Lhs[1], s.Rhs[0]) {
		// swap
		a, aok := ast.Unparen(s.Lhs[0]).(*ast.IndexExpr)
		b, bok := ast.Unparen(s.Lhs[1]).(*ast.IndexExpr)
		if aok && bok && e.sameText(a.X, b.X) {
			i, j := e.asI64(a.Index), e.asI64(b.Index)
			ti, tj := e.tmp("i"), e.tmp("i")
			m := e.refmut(a.X)
			e.flushPre()
			e.line("let %s: i64 = %s;", ti, i)
			e.line("let %s: i64 = %s;", tj, j)
			e.line("go_swap(%s, %s, %s);", m, ti, tj)
			return
		}
		if !e.t.isCopy(e.typeOf(s.Lhs[0])) {
			x, y := e.refmut(s.Lhs[0]), e.refmut(s.Lhs[1])
			e.flushPre()
			e.line("core::mem::swap(%s, %s);", x, y)
			return
		}
	}
	var ts []string
	for _, r := range s.Rhs {
		v := e.val(r)
		e.flushPre()
		t := e.tmp("t")
		e.line("let %s = %s;", t, v)
		ts = append(ts, t)
	}
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			continue
		}
		p := e.lhsPlace(l)
		e.flushPre()
		e.line("%s = %s;", p, ts[i])
	}
}

func (e *Em) ifStmt(s *ast.IfStmt) {
	wrap := s.Init != nil
	if wrap {
		e.line("{")
		e.ind++
		e.stmt(s.Init)
	}
	n, flip := e.nextIf(s.Cond)
	then, els := "then", "else"
	if flip {
		then, els = els, then
	}
	cond := e.val(s.Cond)
	e.flushPre()
	e.line("if %s {", cond)
	e.ind++
	if f := e.onThen; f != nil {
		e.onThen = nil
		f()
	}
	e.at(fmt.Sprintf("%s %d", then, n))
	e.stmts(s.Body.List)
	e.ind--
	hasElseGhost := false
	if e.sp != nil {
		_, hasElseGhost = e.sp.at[fmt.Sprintf("%s %d", els, n)]
	}
	if s.Else != nil || hasElseGhost {
		e.line("} else {")
		e.ind++
		e.at(fmt.Sprintf("%s %d", els, n))
		switch el := s.Else.(type) {
		case *ast.BlockStmt:
			e.stmts(el.List)
		case *ast.IfStmt:
			e.stmt(el)
		}
		e.ind--
	}
	e.line("}")
	if wrap {
		e.ind--
		e.line("}")
	}
}

// nextLoop gives the number of a loop: its own, and that of the loop of the original it corresponds to (0: none)
func (e *Em) nextLoop(s ast.Stmt, kind string) int {
	e.cnt.loop++
	set := map[string]bool{}
	ast.Inspect(s, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			set[id.Name] = true
		}
		return true
	})
	var bag []string
	for k := range set {
		bag = append(bag, k)
	}
	sort.Strings(bag)
	e.cnt.bags = append(e.cnt.bags, strings.Join(bag, " "))
	e.cnt.loops = append(e.cnt.loops, kind)
	if n := e.cnt.al.loop(e.cnt.loop); n > 0 {
		return n
	}
	return 1000 + e.cnt.loop
}

func (e *Em) nextIf(c ast.Expr) (int, bool) {
	e.cnt.iff++
	e.cnt.ifs = append(e.cnt.ifs, e.srcText(c))
	return e.cnt.al.iff(e.cnt.iff)
}

// leadingGuard: a loop that starts with declarations and then leaves if a condition holds; the position of that if
func leadingGuard(list []ast.Stmt) int {
	for i, s := range list {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				return -1
			}
		case *ast.DeclStmt:
		case *ast.IfStmt:
			if n := len(s.Body.List); s.Else == nil && n > 0 {
				switch b := s.Body.List[n-1].(type) {
				case *ast.ReturnStmt:
					return i
				case *ast.BranchStmt:
					if b.Tok == token.BREAK {
						return i
					}
				}
			}
			return -1
		default:
			return -1
		}
	}
	return -1
}

func loopLabel(s string) string {
	if s == "" {
		return ""
	}
	return "'" + s + ": "
}

func (e *Em) loopSpec(n int) string {
	if e.sp == nil {
		return ""
	}
	if e.t.framed() {
		return e.sp.frameInv
	}
	if s, ok := e.sp.loops[n]; ok {
		e.sp.loopUsed[n] = true
		return s
	}
	return ""
}

func (e *Em) forStmt(s *ast.ForStmt) {
	kind := "while"
	if s.Cond == nil {
		kind = "loop" + trailingExit(s)
	}
	n := e.nextLoop(s, kind)
	baseKind := ""
	if b := e.t.base[e.host.key]; b != nil && n <= len(b.Loops) {
		baseKind = b.Loops[n-1]
	}
	// the loop was written with its test at the end: while c {b} is if c {loop {b; if !c {break}}}
	turn := s.Cond != nil && strings.HasPrefix(baseKind, "loop ")
	after, _ := e.next.(*ast.ReturnStmt)
	if baseKind != "loop return" || e.fi != e.host || e.flag != nil {
		after = nil
	}
	e.line("{")
	e.ind++
	if s.Init != nil {
		e.stmt(s.Init)
	}
	e.at(fmt.Sprintf("before loop %d", n))
	cond := "true"
	var condPre []string
	if s.Cond != nil {
		cond = e.val(s.Cond)
		condPre = e.pre
		e.pre = nil
	}
	post := ""
	if s.Post != nil {
		post = e.capture(func() { sv := e.ind; e.ind = 0; e.stmt(s.Post); e.ind = sv })
	}
	lbl := e.label
	e.label = ""
	if turn && len(condPre) > 0 {
		turn = false
	}
	if turn {
		brk := "break"
		if lbl != "" {
			brk += " '" + lbl
		}
		e.line("if %s {", cond)
		e.ind++
		e.line("%sloop", loopLabel(lbl))
		post = strings.TrimLeft(post+fmt.Sprintf("\nif !(%s) { %s; }", cond, brk), "\n")
	} else if s.Cond == nil || len(condPre) > 0 {
		e.line("%sloop", loopLabel(lbl))
	} else {
		e.line("%swhile %s", loopLabel(lbl), cond)
	}
	if sp := e.loopSpec(n); sp != "" {
		e.line("//@@loop %d\n%s\n%s", n, strings.TrimRight(sp, "\n"), markEnd)
	}
	e.line("{")
	e.ind++
	guard := -1
	if s.Cond == nil {
		if baseKind == "while" {
			guard = leadingGuard(s.Body.List)
		}
	}
	if guard < 0 {
		e.at(fmt.Sprintf("begin %d", n))
	}
	if len(condPre) > 0 {
		for _, l := range condPre {
			e.line("%s", l)
		}
		e.line("if !(%s) { break; }", cond)
	}
	e.loops = append(e.loops, loopCtx{lbl, post})
	endless := s.Cond == nil && e.flag == nil && !leavesLoop(s.Body)
	for i, b := range s.Body.List {
		if i == guard && endless {
			// the way out of the loop is this return: what held after the loop holds here
			e.onThen = func() {
				e.at(fmt.Sprintf("exit %d", n))
				e.at(fmt.Sprintf("after loop %d", n))
			}
		}
		e.stmt(b)
		if i == guard {
			e.at(fmt.Sprintf("begin %d", n))
		}
	}
	e.loops = e.loops[:len(e.loops)-1]
	e.at(fmt.Sprintf("end %d", n))
	if turn {
		if p := strings.TrimSpace(post[:strings.LastIndex(post, "if !(")]); p != "" {
			e.line("%s", p)
		}
		e.at(fmt.Sprintf("post %d", n))
		e.line("if !(%s) {", cond)
		e.ind++
		if after != nil {
			e.stmt(after)
			e.mute = after
		} else {
			e.line("break;")
		}
		e.ind--
		e.line("}")
	} else {
		if post != "" {
			e.line("%s", post)
		}
		e.at(fmt.Sprintf("post %d", n))
	}
	e.ind--
	e.line("}")
	if !endless {
		e.at(fmt.Sprintf("exit %d", n))
	}
	if turn {
		e.ind--
		e.line("}")
	}
	e.ind--
	e.line("}")
	if !endless {
		e.at(fmt.Sprintf("after loop %d", n))
	}
}

// trailingExit: the loop ends with a test that leaves it
func trailingExit(s *ast.ForStmt) string {
	n := len(s.Body.List)
	if n == 0 || s.Post != nil {
		return ""
	}
	i, ok := s.Body.List[n-1].(*ast.IfStmt)
	if !ok || i.Else != nil || len(i.Body.List) != 1 {
		return ""
	}
	switch b := i.Body.List[0].(type) {
	case *ast.ReturnStmt:
		return " return"
	case *ast.BranchStmt:
		if b.Tok == token.BREAK {
			return " break"
		}
	}
	return ""
}

// leavesLoop: a break that may leave this loop (labelled ones count)
func leavesLoop(b ast.Stmt) bool {
	found := false
	depth := 0
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BranchStmt:
				if (x.Tok == token.BREAK && (depth == 0 || x.Label != nil)) || x.Tok == token.GOTO {
					found = true
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				if x != n {
					depth++
					walk(x)
					depth--
					return false
				}
			case *ast.FuncLit:
				return false
			}
			return true
		})
	}
	walk(b)
	return found
}

func (e *Em) rangeStmt(s *ast.RangeStmt) {
	n := e.nextLoop(s, "while")
	e.line("{")
	e.ind++
	iv := fmt.Sprintf("__i%d", n)
	nv := fmt.Sprintf("__n%d", n)
	var keyVar, valVar *ast.Ident
	if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
		keyVar = id
	}
	if id, ok := s.Value.(*ast.Ident); ok && id.Name != "_" {
		valVar = id
	}
	if s.Tok == token.ASSIGN {
		e.fail(s, "range with assignment")
	}
	var elem string
	ty := e.typeOf(s.X).Underlying()
	var src string
	switch u := ty.(type) {
	case *types.Slice:
		if isPlaceExpr(ast.Unparen(s.X)) {
			src = e.ref(s.X)
			e.flushPre()
			whole := e.srcText(s.X)
			ast.Inspect(s.Body, func(m ast.Node) bool {
				if a, ok := m.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN {
					for i, l := range a.Lhs {
						if e.srcText(l) != whole {
							continue
						}
						if c, ok := ast.Unparen(a.Rhs[min(i, len(a.Rhs)-1)]).(*ast.CallExpr); ok && e.srcText(c.Fun) == "append" && e.srcText(c.Args[0]) == whole {
							continue
						}
						e.fail(a, "the slice of a range is assigned in it")
					}
				}
				return true
			})
		} else {
			v := e.bytesVal(s.X)
			e.flushPre()
			e.line("let __x%d: %s = %s;", n, e.t.rtype(e.typeOf(s.X)), v)
			if sl, ok := ast.Unparen(s.X).(*ast.SliceExpr); ok && sl.Low != nil {
				// positions in the part are positions in the whole, less this
				e.line("//@@off %s %s", iv, e.val(sl.Low))
			}
			src = fmt.Sprintf("&__x%d", n)
		}
		e.line("let %s: i64 = go_len(%s);", nv, src)
		if valVar != nil {
			p := ""
			if isPlaceExpr(ast.Unparen(s.X)) {
				p = e.place(s.X, false)
			} else {
				p = fmt.Sprintf("__x%d", n)
			}
			if e.t.isCopy(u.Elem()) {
				elem = p + "[" + e.rangeIndex(p, iv) + "]"
			} else {
				elem = "&" + p + "[" + e.rangeIndex(p, iv) + "]"
			}
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if keyVar != nil {
				e.fail(s, "range over string with index")
			}
			rs := fmt.Sprintf("__r%d", n)
			src = e.ref(s.X)
			e.flushPre()
			e.line("let %s: Vec<i32> = go_runes(%s);", rs, src)
			e.line("let %s: i64 = go_len(&%s);", nv, rs)
			elem = rs + "[" + e.rangeIndex(rs, iv) + "]"
		} else if u.Info()&types.IsInteger != 0 {
			v := e.asI64(s.X)
			e.flushPre()
			e.line("let %s: i64 = %s;", nv, v)
		} else {
			e.fail(s, "range")
		}
	default:
		e.fail(s, "range over %s", ty)
	}
	if keyVar != nil {
		kv, _ := e.t.info.Defs[keyVar].(*types.Var)
		if kv != nil && !e.fi.reassign[kv] && e.t.rtype(kv.Type()) == "i64" {
			elem = strings.ReplaceAll(elem, iv, rname(keyVar.Name))
			iv = rname(keyVar.Name)
			keyVar = nil
		}
	}
	e.line("let mut %s: i64 = 0;", iv)
	e.at(fmt.Sprintf("before loop %d", n))
	lbl := e.label
	e.label = ""
	e.line("%swhile (%s < %s)", loopLabel(lbl), iv, nv)
	if sp := e.loopSpec(n); sp != "" {
		e.line("//@@loop %d\n%s\n%s", n, strings.TrimRight(sp, "\n"), markEnd)
	}
	e.line("{")
	e.ind++
	if keyVar != nil {
		kv, _ := e.t.info.Defs[keyVar].(*types.Var)
		e.kind[kv] = "own"
		e.line("let mut %s: %s = %s as %s;", rname(keyVar.Name), e.t.rtype(kv.Type()), iv, e.t.rtype(kv.Type()))
	}
	if valVar != nil {
		vv, _ := e.t.info.Defs[valVar].(*types.Var)
		if strings.HasPrefix(elem, "&") {
			e.kind[vv] = "ref"
			e.line("let %s: &%s = %s;", rname(valVar.Name), e.t.rtype(vv.Type()), elem)
		} else {
			e.kind[vv] = "own"
			e.line("let mut %s: %s = %s;", rname(valVar.Name), e.t.rtype(vv.Type()), elem)
		}
	}
	e.at(fmt.Sprintf("begin %d", n))
	post := fmt.Sprintf("%s = (%s + 1i64);", iv, iv)
	if e.t.framed() {
		post = fmt.Sprintf("%s = %s.wrapping_add(1i64);", iv, iv)
	}
	e.loops = append(e.loops, loopCtx{lbl, post})
	e.stmts(s.Body.List)
	e.loops = e.loops[:len(e.loops)-1]
	e.at(fmt.Sprintf("end %d", n))
	e.line("%s", post)
	e.at(fmt.Sprintf("post %d", n))
	e.ind--
	e.line("}")
	e.at(fmt.Sprintf("exit %d", n))
	e.ind--
	e.line("}")
	e.at(fmt.Sprintf("after loop %d", n))
}

func (e *Em) switchStmt(s *ast.SwitchStmt) {
	e.line("{")
	e.ind++
	if s.Init != nil {
		e.stmt(s.Init)
	}
	tag := ""
	if s.Tag != nil {
		v := e.val(s.Tag)
		e.flushPre()
		tag = e.tmp("g")
		e.line("let %s = %s;", tag, v)
	}
	var def *ast.CaseClause
	depth := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		ast.Inspect(cc, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				return false
			case *ast.BranchStmt:
				if b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH {
					e.fail(b, "%s in switch", b.Tok)
				}
			}
			return true
		})
		if cc.List == nil {
			def = cc
			continue
		}
		var cs []string
		for _, x := range cc.List {
			v := e.val(x)
			if tag != "" {
				v = "(" + tag + " == " + v + ")"
			}
			cs = append(cs, v)
		}
		e.flushPre()
		e.cnt.iff++
		txt := ""
		for _, x := range cc.List {
			txt += e.srcText(x) + ";"
		}
		e.cnt.ifs = append(e.cnt.ifs, txt)
		e.line("if %s {", strings.Join(cs, " || "))
		e.ind++
		if n, flip := e.cnt.al.iff(e.cnt.iff); !flip {
			e.at(fmt.Sprintf("then %d", n))
		}
		e.stmts(cc.Body)
		e.ind--
		e.line("} else {")
		e.ind++
		depth++
	}
	if def != nil {
		e.stmts(def.Body)
	}
	for ; depth > 0; depth-- {
		e.ind--
		e.line("}")
	}
	e.ind--
	e.line("}")
}

// onlySorted: v is used only as the first argument of a sort and inside its comparison.
func (e *Em) onlySorted(v *types.Var) bool {
	found, other := 0, 0
	ast.Inspect(e.fi.decl.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if x := e.t.extCall(c); x == "sort.SliceStable" || x == "sort.Slice" {
				if id, ok := ast.Unparen(c.Args[0]).(*ast.Ident); ok && e.t.varOf(id) == v {
					found++
					return false
				}
			}
		}
		if id, ok := n.(*ast.Ident); ok && e.t.info.Uses[id] == v {
			other++
		}
		return true
	})
	return found == 1 && other == 0
}
