package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"regexp"
	"strconv"
	"strings"
)

type unsupported struct {
	pos token.Pos
	msg string
}

type counters struct {
	loop, ret, iff, tmp, lit int
	call, assign             map[string]int
	loops, bags, ifs, rets   []string
	bits, facts              []string
	marks                    map[string][]string
	al                       *align
}

type Em struct {
	late  bool // ghost text of a return goes behind its calls
	t     *Tr
	host  *FnInfo // function being emitted (its contract applies)
	fi    *FnInfo // function whose body is being translated (differs from host while inlining)
	sp    *FnSpec
	lines []string
	ind   int
	cnt   *counters
	subst map[*types.Var]string // variable -> place text (inlined pointer parameters, receivers)
	kind  map[*types.Var]string // "ref", "refmut", "own"
	names map[*types.Var]string
	pre   []string
	stack []*FnInfo

	lits       map[*types.Var]*litVal              // locals bound to function literals
	sliceAlias map[*types.Var]ast.Expr             // locals bound to a part of a slice that is sorted
	elem       func(*ast.IndexExpr) (string, bool) // elements seen by the comparison of a sort
	forbid     map[*types.Var]bool
	inLit      bool
	flag       *retFlag // return inside a loop of an inlined function
	loops      []loopCtx
	label      string   // label of the next loop
	next       ast.Stmt // the statement after the current one
	mute       ast.Stmt // a statement that was written before, without ghost text the second time
	onThen     func()   // emits ghost text at the start of the next branch taken
}

type retFlag struct{ done, val string }

type loopCtx struct{ label, post string }

var rustKw = map[string]bool{"as": true, "box": true, "crate": true, "dyn": true, "enum": true, "extern": true, "fn": true, "impl": true, "in": true,
	"let": true, "loop": true, "match": true, "mod": true, "move": true, "mut": true, "pub": true, "ref": true, "self": true, "static": true,
	"super": true, "trait": true, "type": true, "unsafe": true, "use": true, "where": true, "while": true, "async": true, "await": true,
	"final": true, "old": true, "proof": true, "spec": true, "exec": true, "ghost": true, "tracked": true, "assert": true, "forall": true, "exists": true, "choose": true, "assume": true, "int": true, "nat": true, "do": true, "try": true, "yield": true, "macro": true, "virtual": true, "abstract": true, "become": true, "override": true, "priv": true, "typeof": true, "unsized": true}

func rname(s string) string {
	if rustKw[s] {
		return s + "_"
	}
	return s
}

func (e *Em) fail(n ast.Node, f string, a ...interface{}) {
	panic(unsupported{n.Pos(), fmt.Sprintf(f, a...)})
}

func (e *Em) line(f string, a ...interface{}) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		e.lines = append(e.lines, strings.Repeat("  ", e.ind)+l)
	}
}

func (e *Em) capture(f func()) string {
	save := e.lines
	e.lines = nil
	f()
	s := strings.Join(e.lines, "\n")
	e.lines = save
	return s
}

func (e *Em) tmp(p string) string {
	e.cnt.tmp++
	return fmt.Sprintf("__%s%d", p, e.cnt.tmp)
}

// ---- types

func (t *Tr) rtype(ty types.Type) string {
	ty = types.Unalias(ty)
	switch x := ty.(type) {
	case *types.Named:
		n := x.Obj().Name()
		if x.Obj().Pkg() == nil { // error
			return "GoError"
		}
		if x.Obj().Pkg() != t.pkg {
			return "Go" + x.Obj().Pkg().Name() + n
		}
		switch u := x.Underlying().(type) {
		case *types.Struct:
			return n
		case *types.Interface:
			if m, ok := t.spec.iface[n]; ok {
				return m
			}
			return n
		default:
			return t.rtype(u)
		}
	case *types.Pointer:
		return t.rtype(x.Elem())
	case *types.Slice:
		return "Vec<" + t.rtype(x.Elem()) + ">"
	case *types.Array:
		return fmt.Sprintf("[%s; %d]", t.rtype(x.Elem()), x.Len())
	case *types.Basic:
		switch x.Kind() {
		case types.Int, types.UntypedInt, types.Int64:
			return "i64"
		case types.Uint, types.Uint64, types.Uintptr:
			return "u64"
		case types.Int8:
			return "i8"
		case types.Int16:
			return "i16"
		case types.Int32, types.UntypedRune:
			return "i32"
		case types.Uint8:
			return "u8"
		case types.Uint16:
			return "u16"
		case types.Uint32:
			return "u32"
		case types.Bool, types.UntypedBool:
			return "bool"
		case types.String, types.UntypedString:
			return "Vec<u8>"
		}
	case *types.Signature:
		return "GoFunc"
	case *types.Interface:
		if m, ok := t.spec.iface["interface{}"]; ok && x.NumMethods() == 0 {
			return m
		}
	}
	panic(unsupported{0, "type " + ty.String()})
}

func (t *Tr) isCopy(ty types.Type) bool {
	ty = types.Unalias(ty)
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0
	case *types.Struct:
		if t.spec.noCopy[namedName(ty)] {
			return false
		}
		if len(t.spec.ghost[namedName(ty)]) > 0 {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if !t.isCopy(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Pointer:
		// pointers to plain structs held in containers are treated as values
		return t.isCopy(u.Elem())
	}
	return false
}

func (t *Tr) zero(ty types.Type) string {
	ty = types.Unalias(ty)
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "Vec::new()"
		}
		if u.Info()&types.IsBoolean != 0 {
			return "false"
		}
		return "0" + t.rtype(ty)
	case *types.Slice:
		return "Vec::new()"
	case *types.Pointer:
		return t.zero(u.Elem())
	case *types.Struct:
		n := namedName(ty)
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, rname(u.Field(i).Name())+": "+t.zero(u.Field(i).Type()))
		}
		for _, g := range t.spec.ghost[n] {
			fs = append(fs, g.name+": "+g.init)
		}
		return n + " { " + strings.Join(fs, ", ") + " }"
	case *types.Interface:
		n := namedName(ty)
		if n == "error" {
			return "GoError { e: false }"
		}
		if m, ok := t.spec.iface[n]; ok {
			if o := t.pkg.Scope().Lookup(m); o != nil {
				return t.zero(o.Type())
			}
		}
	}
	panic(unsupported{0, "zero value of " + ty.String()})
}

// ---- expressions

func (e *Em) typeOf(x ast.Expr) types.Type {
	if tv, ok := e.t.info.Types[x]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if v := e.t.varOf(id); v != nil {
			return v.Type()
		}
	}
	e.fail(x, "no type")
	return nil
}

func (e *Em) constLit(x ast.Expr) (string, bool) {
	tv, ok := e.t.info.Types[x]
	if !ok || tv.Value == nil {
		return "", false
	}
	switch tv.Value.Kind() {
	case constant.Bool:
		return fmt.Sprint(constant.BoolVal(tv.Value)), true
	case constant.Int:
		ty := e.t.rtype(tv.Type)
		s := tv.Value.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(" + s + ty + ")", true
		}
		return s + ty, true
	case constant.String:
		s := constant.StringVal(tv.Value)
		if s == "" {
			return "go_empty_string()", true
		}
		var bs []string
		for i := 0; i < len(s); i++ {
			bs = append(bs, fmt.Sprintf("%du8", s[i]))
		}
		return "vec![" + strings.Join(bs, ", ") + "]", true
	}
	return "", false
}

func (e *Em) vname(v *types.Var) string {
	if s, ok := e.subst[v]; ok {
		return s
	}
	if n, ok := e.names[v]; ok {
		return n
	}
	if v.Parent() == e.t.pkg.Scope() {
		return "g_" + v.Name()
	}
	return rname(v.Name())
}

// place emits an expression denoting a location (no reference operator).
func (e *Em) place(x ast.Expr, mut bool) string {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.place(x.X, mut)
	case *ast.Ident:
		v := e.t.varOf(x)
		if v == nil {
			e.fail(x, "identifier %s", x.Name)
		}
		if v.Parent() == e.t.pkg.Scope() {
			return e.global(x, v)
		}
		if e.forbid[v] {
			e.fail(x, "position used in the comparison of a sort")
		}
		return e.vname(v)
	case *ast.StarExpr:
		if id, ok := ast.Unparen(x.X).(*ast.Ident); ok {
			if v := e.t.varOf(id); v != nil {
				if s, ok := e.subst[v]; ok {
					if s == "self" {
						return "(*self)"
					}
					return s
				}
				if e.kind[v] == "own" {
					return e.vname(v)
				}
			}
			return "(*" + e.place(x.X, mut) + ")"
		}
		return e.place(x.X, mut)
	case *ast.SelectorExpr:
		if _, ok := e.t.info.Selections[x]; !ok {
			e.fail(x, "qualified identifier %s", x.Sel.Name)
		}
		return e.place(x.X, mut) + "." + rname(x.Sel.Name)
	case *ast.IndexExpr:
		if e.elem != nil {
			if s, ok := e.elem(x); ok {
				return s
			}
		}
		base := e.place(x.X, mut)
		if e.t.framed() {
			return base + "[" + e.frameIndex(base, x.Index, mut) + "]"
		}
		return base + "[" + e.index(x.Index, mut) + "]"
	case *ast.CallExpr:
		if fi := e.t.calleeOf(x); fi != nil && fi.retPlace != nil && e.t.spec.fns[fi.key] == nil {
			return e.inlinePlace(x, fi, mut)
		}
		return e.val(x)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return e.place(x.X, mut)
		}
	case *ast.TypeAssertExpr:
		return e.place(x.X, mut)
	}
	return "(" + e.val(x) + ")"
}

func isSimple(x ast.Expr) bool {
	switch x := ast.Unparen(x).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.CallExpr:
		return false
	case *ast.SelectorExpr:
		return false
	case *ast.BinaryExpr:
		return isSimple(x.X) && isSimple(x.Y)
	}
	return false
}

func (e *Em) index(x ast.Expr, mut bool) string {
	if tv, ok := e.t.info.Types[x]; ok && tv.Value != nil {
		return tv.Value.ExactString()
	}
	s := "((" + e.val(x) + ") as usize)"
	if mut && !isSimple(x) {
		n := e.tmp("i")
		e.pre = append(e.pre, fmt.Sprintf("let %s: usize = %s;", n, s))
		return n
	}
	return s
}

// inlinePlace expands an accessor `return &place`.
func (e *Em) inlinePlace(c *ast.CallExpr, fi *FnInfo, mut bool) string {
	sel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	recv := e.place(sel.X, mut)
	sub := map[*types.Var]string{}
	for k, v := range e.subst {
		sub[k] = v
	}
	sub[fi.recv] = recv
	for i, p := range fi.params {
		a := c.Args[i]
		s := e.val(a)
		if _, isConst := e.constLit(a); !isConst && (mut || !isSimple(a)) {
			if _, id := ast.Unparen(a).(*ast.Ident); !id && mut {
				n := e.tmp("a")
				e.pre = append(e.pre, fmt.Sprintf("let %s: %s = %s;", n, e.t.rtype(p.Type()), s))
				s = n
			}
		}
		sub[p] = s
	}
	save := e.subst
	e.subst = sub
	r := e.place(fi.retPlace, mut)
	e.subst = save
	return r
}

func (e *Em) global(x ast.Node, v *types.Var) string {
	if e.t.globalMut[v] {
		if e.fi != e.host {
			e.fail(x, "mutable package variable %s in inlined function", v.Name())
		}
		return "g_" + v.Name()
	}
	return "g_" + v.Name() + "()"
}

// ref emits a shared reference to the value of x.
func (e *Em) ref(x ast.Expr) string {
	x = ast.Unparen(x)
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
		if _, comp := u.X.(*ast.CompositeLit); comp {
			return "&" + e.val(u.X)
		}
		return e.ref(u.X)
	}
	if id, ok := x.(*ast.Ident); ok {
		v := e.t.varOf(id)
		if v != nil {
			if s, ok := e.subst[v]; ok {
				return "&" + s
			}
			switch e.kind[v] {
			case "ref":
				return e.vname(v)
			case "refmut":
				return "&*" + e.vname(v)
			}
			if v.Parent() == e.t.pkg.Scope() {
				return "&" + e.global(x, v)
			}
			return "&" + e.vname(v)
		}
	}
	if _, isConst := e.constLit(x); isConst {
		return "&" + e.val(x)
	}
	if isPlaceExpr(x) {
		return "&" + e.place(x, false)
	}
	return "&" + e.val(x)
}

func (e *Em) refmut(x ast.Expr) string {
	x = ast.Unparen(x)
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
		return e.refmut(u.X)
	}
	if id, ok := x.(*ast.Ident); ok {
		if v := e.t.varOf(id); v != nil {
			if s, ok := e.subst[v]; ok {
				return "&mut " + s
			}
			if e.kind[v] == "refmut" {
				return e.vname(v)
			}
			if e.kind[v] == "ref" {
				e.fail(x, "mutation through shared reference %s", v.Name())
			}
		}
	}
	return "&mut " + e.place(x, true)
}

var binops = map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/", token.REM: "%", token.AND: "&", token.OR: "|", token.XOR: "^",
	token.LAND: "&&", token.LOR: "||", token.EQL: "==", token.NEQ: "!=", token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}

func (e *Em) wrapping() bool { return e.sp != nil && e.sp.wrapping }

var numeral = regexp.MustCompile(`^\(?[0-9][0-9a-fx_]*(u8|u16|u32|u64|i64|i32)?\)?$`)

var bitOp = regexp.MustCompile(` (&|\||\^|<<|>>) `)

// noteBits records the bit operations of a function, with their constants
func (e *Em) noteBits(op token.Token, a, b string, ty types.Type) {
	switch op {
	case token.EQL, token.NEQ:
		if !strings.Contains(a, " & ") {
			return
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR, token.QUO, token.REM:
	default:
		return
	}
	c := func(s string) string {
		if numeral.MatchString(s) {
			return s
		}
		return "_"
	}
	shape := func(s string) string {
		if r := c(s); r != "_" {
			return r
		}
		return bitOp.FindString(s) + "_"
	}
	e.cnt.bits = append(e.cnt.bits, shape(a)+" "+op.String()+" "+shape(b))
	rt := e.t.rtype(ty)
	if rt != "u8" && rt != "u32" && rt != "u64" {
		return
	}
	fact := func(f string) {
		e.cnt.facts = append(e.cnt.facts, "    assert forall|x: "+rt+f)
	}
	if c(b) != "_" {
		lit := strings.TrimRight(strings.Trim(b, "()"), "")
		for _, w := range []string{"u8", "u16", "u32", "u64", "i64", "i32"} {
			lit = strings.TrimSuffix(lit, w)
		}
		v, err := strconv.ParseUint(strings.ReplaceAll(lit, "_", ""), 0, 64)
		if err != nil || v == 0 {
			return
		}
		one := func(l, r string) {
			fact(fmt.Sprintf("| #[trigger] (%s) == %s by { assert(%s == %s) by(bit_vector); }", l, r, l, r))
		}
		pow := v&(v-1) == 0
		switch op {
		case token.SHR:
			if v < 32 {
				one(fmt.Sprintf("x >> %d%s", v, rt), fmt.Sprintf("x / %d%s", uint64(1)<<v, rt))
			}
		case token.QUO:
			if pow {
				one(fmt.Sprintf("x / %d%s", v, rt), fmt.Sprintf("x >> %d%s", bits.TrailingZeros64(v), rt))
			}
		case token.REM:
			if pow {
				one(fmt.Sprintf("x %% %d%s", v, rt), fmt.Sprintf("(x & %d%s)", v-1, rt))
			}
		case token.AND:
			if v&(v+1) == 0 {
				one(fmt.Sprintf("x & %d%s", v, rt), fmt.Sprintf("(x %% %d%s)", v+1, rt))
			}
			if pow {
				l := fmt.Sprintf("x & %d%s", v, rt)
				r := fmt.Sprintf("(%s) == 0%s || (%s) == %d%s", l, rt, l, v, rt)
				fact(fmt.Sprintf("| #[trigger] (%s) == 0%s || (%s) == %d%s by { assert(%s) by(bit_vector); }", l, rt, l, v, rt, r))
			}
		}
	} else if op == token.OR || op == token.XOR || op == token.AND {
		l, r := "x "+op.String()+" y", "(y "+op.String()+" x)"
		fact(fmt.Sprintf(", y: %s| #[trigger] (%s) == %s by { assert((%s) == %s) by(bit_vector); }", rt, l, r, l, r))
	}
}

func (e *Em) binary(n ast.Node, op token.Token, a, b string, ty types.Type, ye ast.Expr) string {
	e.noteBits(op, a, b, ty)
	switch op {
	case token.AND_NOT:
		return "(" + a + " & !" + b + ")"
	case token.SHL, token.SHR:
		rt := e.t.rtype(ty)
		if tv := e.t.info.Types[ye]; tv.Value != nil {
			w := map[string]int64{"u8": 8, "u16": 16, "u32": 32, "u64": 64, "i64": 64, "i32": 32}[rt]
			c, _ := constant.Int64Val(constant.ToInt(tv.Value))
			o := map[token.Token]string{token.SHL: "<<", token.SHR: ">>"}[op]
			if c < w {
				return fmt.Sprintf("(%s %s %d%s)", a, o, c, rt)
			}
			return "0" + rt
		}
		f := "go_shl_"
		if op == token.SHR {
			f = "go_shr_"
		}
		return fmt.Sprintf("%s%s(%s, (%s) as u64)", f, rt, a, b)
	}
	o, ok := binops[op]
	if !ok {
		e.fail(n, "operator %s", op)
	}
	if e.t.framed() && (op == token.QUO || op == token.REM) && e.t.info.Types[ye].Value == nil {
		b = "go_nonzero(" + b + ")"
	}
	if e.wrapping() {
		if bt, ok := ty.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			switch op {
			case token.ADD:
				return a + ".wrapping_add(" + b + ")"
			case token.SUB:
				return a + ".wrapping_sub(" + b + ")"
			case token.MUL:
				return a + ".wrapping_mul(" + b + ")"
			}
		}
	}
	return "(" + a + " " + o + " " + b + ")"
}

func isNil(x ast.Expr) bool {
	id, ok := ast.Unparen(x).(*ast.Ident)
	return ok && id.Name == "nil"
}

func (e *Em) isString(x ast.Expr) bool {
	b, ok := e.typeOf(x).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// val emits an expression producing a value.
func (e *Em) val(x ast.Expr) string {
	if s, ok := e.constLit(x); ok {
		return s
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.val(x.X)
	case *ast.Ident:
		if isNil(x) {
			return e.t.zero(e.typeOf(x))
		}
		v := e.t.varOf(x)
		if v == nil {
			e.fail(x, "identifier %s", x.Name)
		}
		return e.useVal(x, e.place(x, false), v)
	case *ast.SelectorExpr, *ast.IndexExpr:
		p := e.place(x, false)
		if e.t.isCopy(e.typeOf(x)) {
			return p
		}
		return "go_share(&" + p + ")"
	case *ast.StarExpr:
		p := e.place(x, false)
		if e.t.isCopy(e.typeOf(x)) {
			return p
		}
		return "go_share(&" + p + ")"
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return "!" + e.val(x.X)
		case token.XOR:
			return "(!" + e.val(x.X) + ")"
		case token.SUB:
			if e.t.framed() {
				return e.val(x.X) + ".wrapping_neg()"
			}
			return "(-" + e.val(x.X) + ")"
		case token.ADD:
			return e.val(x.X)
		case token.AND:
			if c, ok := x.X.(*ast.CompositeLit); ok {
				return e.composite(c)
			}
			return "go_share(&" + e.place(x.X, false) + ")"
		}
	case *ast.BinaryExpr:
		if isNil(x.Y) || isNil(x.X) {
			o := x.X
			if isNil(x.X) {
				o = x.Y
			}
			if e.t.rtype(e.typeOf(o)) == "GoError" {
				if x.Op == token.NEQ {
					return e.place(o, false) + ".is_some()"
				}
				return e.place(o, false) + ".is_none()"
			}
			e.fail(x, "comparison with nil")
		}
		if e.isString(x.X) {
			if x.Op == token.ADD {
				return "go_concat(" + e.ref(x.X) + ", " + e.ref(x.Y) + ")"
			}
			if x.Op == token.EQL || x.Op == token.NEQ {
				r := "go_eq(" + e.ref(x.X) + ", " + e.ref(x.Y) + ")"
				if x.Op == token.NEQ {
					r = "!" + r
				}
				return r
			}
			e.fail(x, "string comparison")
		}
		if x.Op == token.LAND || x.Op == token.LOR {
			a := e.val(x.X)
			n := len(e.pre)
			b := e.val(x.Y)
			if len(e.pre) > n {
				// what the second operand needs is evaluated only when it is
				b = "{ " + strings.Join(e.pre[n:], "\n") + "\n" + b + " }"
				e.pre = append([]string{}, e.pre[:n]...)
			}
			return e.binary(x, x.Op, a, b, e.typeOf(x.X), x.Y)
		}
		return e.binary(x, x.Op, e.val(x.X), e.val(x.Y), e.typeOf(x.X), x.Y)
	case *ast.CallExpr:
		return e.call(x)
	case *ast.CompositeLit:
		return e.composite(x)
	case *ast.SliceExpr:
		return e.sliceVal(x)
	case *ast.TypeAssertExpr:
		return e.val(x.X)
	}
	e.fail(x, "expression %T", x)
	return ""
}

func (e *Em) useVal(x ast.Expr, p string, v *types.Var) string {
	ty := v.Type()
	if _, sub := e.subst[v]; sub && isRefLike(ty) {
		if e.t.isCopy(deref(ty)) {
			return p
		}
		return "go_share(&" + p + ")"
	}
	if v.Parent() == e.t.pkg.Scope() {
		if e.t.isCopy(ty) {
			return p
		}
		return "go_share(&" + p + ")"
	}
	switch e.kind[v] {
	case "ref", "refmut":
		if e.t.isCopy(deref(ty)) {
			return "(*" + p + ")"
		}
		return "go_share(&*" + p + ")"
	}
	if e.t.isCopy(ty) {
		return p
	}
	return "go_share(&" + p + ")"
}

func (e *Em) sliceVal(x *ast.SliceExpr) string {
	lo, hi := "0i64", ""
	if x.Low != nil {
		lo = e.asI64(x.Low)
	}
	r := e.ref(x.X)
	if x.High != nil {
		hi = e.asI64(x.High)
	} else {
		hi = "go_len(" + r + ")"
	}
	return fmt.Sprintf("go_slice(%s, %s, %s)", r, lo, hi)
}

func (e *Em) asI64(x ast.Expr) string {
	if tv, ok := e.t.info.Types[x]; ok && tv.Value != nil {
		return tv.Value.ExactString() + "i64"
	}
	if e.t.rtype(e.typeOf(x)) == "i64" {
		return e.val(x)
	}
	return "((" + e.val(x) + ") as i64)"
}

func (e *Em) composite(c *ast.CompositeLit) string {
	ty := types.Unalias(e.typeOf(c))
	if p, ok := ty.(*types.Pointer); ok {
		ty = types.Unalias(p.Elem())
	}
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		n := namedName(ty)
		set := map[string]string{}
		for i, el := range c.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				set[kv.Key.(*ast.Ident).Name] = e.moveVal(kv.Value)
			} else {
				set[u.Field(i).Name()] = e.moveVal(el)
			}
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			v, ok := set[f.Name()]
			if !ok {
				v = e.t.zero(f.Type())
			}
			fs = append(fs, rname(f.Name())+": "+v)
		}
		for _, g := range e.t.spec.ghost[n] {
			fs = append(fs, g.name+": "+g.init)
		}
		return n + " { " + strings.Join(fs, ", ") + " }"
	case *types.Slice:
		if len(c.Elts) == 0 {
			return "Vec::<" + e.t.rtype(u.Elem()) + ">::new()"
		}
		var vs []string
		for _, el := range c.Elts {
			if cl, ok := el.(*ast.CompositeLit); ok && cl.Type == nil {
				vs = append(vs, e.composite(cl))
				continue
			}
			vs = append(vs, e.val(el))
		}
		return "vec![" + strings.Join(vs, ", ") + "]"
	}
	e.fail(c, "composite literal of %s", ty)
	return ""
}

func (e *Em) args(fi *FnInfo, c *ast.CallExpr) []string {
	var as []string
	for i, p := range fi.params {
		as = append(as, e.arg(fi, p, c.Args[i]))
	}
	return as
}

func (e *Em) arg(fi *FnInfo, p *types.Var, a ast.Expr) string {
	if _, isF := p.Type().Underlying().(*types.Signature); isF {
		return e.funcArg(a)
	}
	if isRefLike(p.Type()) {
		if fi.mut[p] {
			return e.refmut(a)
		}
		return e.ref(a)
	}
	return e.val(a)
}

func (e *Em) call(c *ast.CallExpr) string {
	fun := ast.Unparen(c.Fun)
	// conversions
	if tv, ok := e.t.info.Types[fun]; ok && tv.IsType() {
		return e.convert(c, tv.Type, c.Args[0])
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := e.t.info.Uses[id].(*types.Builtin); ok {
			return e.builtin(c, b.Name())
		}
	}
	if ext := e.t.extCall(c); ext != "" {
		return e.external(c, ext)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if v := e.t.varOf(id); v != nil && isFuncType(v.Type()) {
			if lv := e.lits[v]; lv != nil {
				return e.callLit(c, lv)
			}
			if e.fi.reassign[v] || v.Parent() == e.t.pkg.Scope() {
				e.fail(c, "call of a function variable")
			}
			var as []string
			for _, a := range c.Args {
				as = append(as, e.val(a))
			}
			return e.vname(v) + "(" + strings.Join(as, ", ") + ")"
		}
	}
	if lit, ok := fun.(*ast.FuncLit); ok {
		return e.callLit(c, &litVal{lit, e})
	}
	if fi := e.t.calleeOf(c); fi != nil {
		if e.t.spec.fns[fi.key] == nil {
			return e.inline(c, fi)
		}
		return e.callSpec(c, fi)
	}
	if e.t.isIfaceMethod(c) {
		sel := fun.(*ast.SelectorExpr)
		var as []string
		for _, a := range c.Args {
			as = append(as, e.val(a))
		}
		return e.place(sel.X, true) + "." + sel.Sel.Name + "(" + strings.Join(as, ", ") + ")"
	}
	e.fail(c, "call")
	return ""
}

func isStructNamed(ty types.Type) bool {
	_, ok := deref(ty).Underlying().(*types.Struct)
	return ok
}

func (e *Em) callSpec(c *ast.CallExpr, fi *FnInfo) string {
	args := e.args(fi, c)
	if fi.recv == nil {
		return fi.decl.Name.Name + "(" + strings.Join(args, ", ") + ")"
	}
	sel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !isStructNamed(fi.recv.Type()) {
		r := ""
		if fi.mut[fi.recv] {
			r = e.refmut(sel.X)
		} else {
			r = e.ref(sel.X)
		}
		return namedName(fi.recv.Type()) + "_" + fi.decl.Name.Name + "(" + strings.Join(append([]string{r}, args...), ", ") + ")"
	}
	mut := fi.mut[fi.recv]
	if mut && strings.ContainsAny(e.placeProbe(sel.X), "[") {
		// the receiver is an element: evaluate the arguments first
		for i := range args {
			if strings.ContainsAny(args[i], ".(") && !strings.HasPrefix(args[i], "&") {
				n := e.tmp("v")
				e.pre = append(e.pre, fmt.Sprintf("let %s = %s;", n, args[i]))
				args[i] = n
			}
		}
	} else if mut {
		last := -1
		for i := range args {
			if e.mutates(c.Args[i]) {
				last = i
			}
		}
		for i := 0; i <= last; i++ {
			if _, isConst := e.constLit(c.Args[i]); !isConst && !strings.HasPrefix(args[i], "&") {
				n := e.tmp("v")
				e.pre = append(e.pre, fmt.Sprintf("let %s = %s;", n, args[i]))
				args[i] = n
			}
		}
	}
	return e.place(sel.X, mut) + "." + fi.decl.Name.Name + "(" + strings.Join(args, ", ") + ")"
}

// mutates: evaluating x calls something that writes.
func (e *Em) mutates(x ast.Expr) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if fi := e.t.calleeOf(c); fi != nil && len(fi.mut) > 0 {
				found = true
			}
		}
		return !found
	})
	return found
}

func (e *Em) placeProbe(x ast.Expr) string {
	save, n := e.pre, e.cnt.tmp
	s := e.place(x, false)
	e.pre, e.cnt.tmp = save, n
	return s
}

func (e *Em) convert(c *ast.CallExpr, to types.Type, a ast.Expr) string {
	from := e.typeOf(a)
	tu, fu := to.Underlying(), from.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
				return "go_rune_string((" + e.val(a) + ") as i32)"
			}
			return e.bytesVal(a)
		}
		rt, rf := e.t.rtype(to), e.t.rtype(from)
		if rt == rf {
			return e.val(a)
		}
		return "((" + e.val(a) + ") as " + rt + ")"
	}
	if _, ok := tu.(*types.Slice); ok {
		if isNil(a) {
			return "Vec::new()"
		}
		return e.bytesVal(a)
	}
	e.fail(c, "conversion")
	return ""
}

// bytesVal copies a string or slice.
func (e *Em) bytesVal(a ast.Expr) string {
	a = ast.Unparen(a)
	if s, ok := e.constLit(a); ok {
		return s
	}
	switch x := a.(type) {
	case *ast.SliceExpr:
		return e.sliceVal(x)
	case *ast.CallExpr:
		return e.val(x)
	}
	return "go_share(" + e.ref(a) + ")"
}

func (e *Em) builtin(c *ast.CallExpr, name string) string {
	switch name {
	case "len":
		return "go_len(" + e.ref(c.Args[0]) + ")"
	case "make":
		sl, ok := e.typeOf(c).Underlying().(*types.Slice)
		if !ok {
			e.fail(c, "make")
		}
		n := e.asI64(c.Args[1])
		if e.t.isCopy(sl.Elem()) {
			return "go_make(" + n + ", " + e.t.zero(sl.Elem()) + ")"
		}
		if n == "0i64" {
			return "Vec::new()"
		}
		e.fail(c, "make of non-copy elements")
	case "append":
		if c.Ellipsis.IsValid() && len(c.Args) == 2 {
			if cv, ok := c.Args[0].(*ast.CallExpr); ok && len(cv.Args) == 1 && isNil(cv.Args[0]) {
				return e.bytesVal(c.Args[1])
			}
			if cl, ok := c.Args[0].(*ast.CompositeLit); ok && len(cl.Elts) == 0 {
				return e.bytesVal(c.Args[1])
			}
			return "go_concat(" + e.ref(c.Args[0]) + ", " + e.ref(c.Args[1]) + ")"
		}
		if sl := e.typeOf(c).Underlying().(*types.Slice); e.t.isCopy(sl.Elem()) && e.fresh(c.Args[0]) {
			var vs []string
			for _, a := range c.Args[1:] {
				vs = append(vs, e.val(a))
			}
			return "go_concat(&" + e.bytesVal(c.Args[0]) + ", &vec![" + strings.Join(vs, ", ") + "])"
		}
		e.fail(c, "append as a value")
	case "copy":
		sl, ok := e.typeOf(c.Args[0]).Underlying().(*types.Slice)
		if !ok || !e.t.isCopy(sl.Elem()) {
			e.fail(c, "copy")
		}
		src := e.tmp("c")
		e.pre = append(e.pre, fmt.Sprintf("let %s: %s = %s;", src, e.t.rtype(e.typeOf(c.Args[0])), e.bytesVal(c.Args[1])))
		d := ast.Unparen(c.Args[0])
		lo, hi := "0i64", ""
		if se, ok := d.(*ast.SliceExpr); ok {
			if se.Low != nil {
				lo = e.asI64(se.Low)
			}
			if se.High != nil {
				hi = e.asI64(se.High)
			}
			d = se.X
		}
		if !isPlaceExpr(ast.Unparen(d)) {
			e.fail(c, "copy")
		}
		if hi == "" {
			hi = "go_len(" + e.ref(d) + ")"
		}
		a, b := e.tmp("l"), e.tmp("h")
		e.pre = append(e.pre, fmt.Sprintf("let %s: i64 = %s;", a, lo), fmt.Sprintf("let %s: i64 = %s;", b, hi))
		return "go_copy(" + e.refmut(d) + ", " + a + ", " + b + ", &" + src + ")"
	}
	e.fail(c, "builtin %s", name)
	return ""
}

// fresh: nothing else refers to the slice.
func (e *Em) fresh(x ast.Expr) bool {
	switch y := ast.Unparen(x).(type) {
	case *ast.CompositeLit:
		return true
	case *ast.CallExpr:
		if tv, ok := e.t.info.Types[y.Fun]; ok && tv.IsType() {
			return e.isString(y.Args[0]) || isNil(y.Args[0])
		}
		if id, ok := y.Fun.(*ast.Ident); ok && (id.Name == "append" || id.Name == "make") {
			return id.Name == "make" || e.fresh(y.Args[0])
		}
	}
	return false
}

func (e *Em) external(c *ast.CallExpr, ext string) string {
	switch ext {
	case "encoding/binary.Read":
		e.littleEndian(c.Args[1])
		return "go_binary_read(" + e.refmut(c.Args[0]) + ", " + e.refmut(c.Args[2]) + ")"
	case "encoding/binary.Write":
		e.littleEndian(c.Args[1])
		return "go_binary_write(" + e.refmut(c.Args[0]) + ", " + e.ref(c.Args[2]) + ")"
	case "sort.SliceStable", "sort.Slice":
		return e.sortCall(c)
	case "bytes.IndexByte", "strings.IndexByte":
		return "go_index_byte(" + e.ref(c.Args[0]) + ", " + e.val(c.Args[1]) + ")"
	case "container/heap.Push":
		return "heap_Push(" + e.refmut(c.Args[0]) + ", &" + e.val(c.Args[1]) + ")"
	case "container/heap.Pop":
		return "heap_Pop(" + e.refmut(c.Args[0]) + ")"
	}
	e.fail(c, "call of %s", ext)
	return ""
}

func (e *Em) littleEndian(x ast.Expr) {
	if s, ok := x.(*ast.SelectorExpr); !ok || s.Sel.Name != "LittleEndian" {
		e.fail(x, "byte order")
	}
}

// ---- inlining of functions without a contract

func containsReturn(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.ReturnStmt:
			found = true
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func terminates(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	switch s := list[len(list)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return terminates(s.List)
	case *ast.IfStmt:
		if s.Else == nil || !terminates(s.Body.List) {
			return false
		}
		switch el := s.Else.(type) {
		case *ast.BlockStmt:
			return terminates(el.List)
		case *ast.IfStmt:
			return terminates([]ast.Stmt{el})
		}
	}
	return false
}

func (e *Em) inline(c *ast.CallExpr, fi *FnInfo) string {
	for _, f := range e.stack {
		if f == fi {
			e.fail(c, "recursive function %s has no contract", fi.key)
		}
	}
	if fi == e.host {
		e.fail(c, "recursion")
	}
	if fi.decl.Body == nil {
		e.fail(c, "no body")
	}
	if a := e.t.aliasErrors(fi); len(a) > 0 {
		e.fail(c, "%s: %s", fi.key, a[0])
	}
	e.t.inlined[fi.key+" in "+e.host.key] = true
	sub := &Em{t: e.t, host: e.host, fi: fi, sp: e.sp, cnt: e.cnt, subst: map[*types.Var]string{}, kind: map[*types.Var]string{}, names: map[*types.Var]string{}, stack: append(append([]*FnInfo{}, e.stack...), fi), ind: e.ind + 1, lits: map[*types.Var]*litVal{}, elem: e.elem, forbid: e.forbid}
	var binds, puts []string
	if fi.recv != nil {
		sel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		mut := fi.mut[fi.recv]
		sub.subst[fi.recv] = e.place(sel.X, mut)
	}
	for i, p := range fi.params {
		a := ast.Unparen(c.Args[i])
		if isFuncType(p.Type()) {
			if l := e.asLit(a); l != nil {
				sub.lits[p] = l
			} else {
				sub.names[p] = e.funcArg(a)
			}
			continue
		}
		if isRefLike(p.Type()) {
			_, lit := e.constLit(a)
			if !lit && (isPlaceExpr(a)) {
				if id, ok := a.(*ast.Ident); ok {
					v := e.t.varOf(id)
					if k := e.kind[v]; (k == "ref" || k == "refmut") && e.subst[v] == "" {
						if _, ptr := v.Type().Underlying().(*types.Pointer); ptr || k == "refmut" {
							sub.subst[p] = "(*" + e.vname(v) + ")"
						} else {
							sub.subst[p] = e.vname(v)
						}
						continue
					}
				}
				sub.subst[p] = e.place(a, fi.mut[p])
				if fi.reassign[p] {
					e.fail(c, "inlined function assigns its reference parameter %s", p.Name())
				}
				continue
			}
			if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND && isPlaceExpr(u.X) {
				sub.subst[p] = e.place(u.X, fi.mut[p])
				continue
			}
			if se, ok := a.(*ast.SliceExpr); ok && fi.mut[p] {
				// the function writes through its argument: copy in, copy out
				if fi.reassign[p] || containsReturn(fi.decl.Body) {
					e.fail(c, "inlined function writes to a part of a slice")
				}
				lo := "0i64"
				if se.Low != nil {
					lo = e.asI64(se.Low)
				}
				l := e.tmp("l")
				pl := e.refmut(se.X)
				binds = append([]string{fmt.Sprintf("let %s: i64 = %s;", l, lo)}, binds...)
				puts = append(puts, fmt.Sprintf("go_put(%s, %s, &%s);", pl, l, rname(p.Name())))
				if len(puts) > 1 {
					e.fail(c, "inlined function writes to parts of two slices")
				}
			} else if _, isCall := a.(*ast.CallExpr); fi.mut[p] && !isCall && !isNil(a) {
				if _, lit := e.constLit(a); !lit {
					if _, cl := a.(*ast.CompositeLit); !cl {
						e.fail(c, "inlined function writes to its argument %s", p.Name())
					}
				}
			}
			binds = append(binds, fmt.Sprintf("let mut %s: %s = %s;", rname(p.Name()), e.t.rtype(p.Type()), e.val(a)))
			sub.kind[p] = "own"
			continue
		}
		v := e.val(a)
		if v == rname(p.Name()) && !fi.reassign[p] {
			continue // same name, unchanged
		}
		if _, isConst := e.constLit(a); !isConst && len(binds) > 0 {
			// bind through temporaries to keep simultaneous substitution
			n := e.tmp("p")
			binds = append([]string{fmt.Sprintf("let %s: %s = %s;", n, e.t.rtype(p.Type()), v)}, binds...)
			v = n
		}
		binds = append(binds, fmt.Sprintf("let mut %s: %s = %s;", rname(p.Name()), e.t.rtype(p.Type()), v))
	}
	body := sub.capture(func() {
		for _, b := range binds {
			sub.line(b)
		}
		sub.declResults()
		sub.inlineBody(fi.decl.Body.List)
		for _, b := range puts {
			sub.line("%s", b)
		}
	})
	return "{\n" + body + "\n" + strings.Repeat("  ", e.ind) + "}"
}

func (e *Em) inlineBody(list []ast.Stmt) {
	for i, s := range list {
		switch s := s.(type) {
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				v := e.retVal(s.Results[0])
				e.flushPre()
				e.line("%s", v)
			} else if len(s.Results) > 1 {
				v := e.tuple(s)
				e.flushPre()
				e.line("%s", v)
			} else if n := e.namedResults(); n != "" {
				e.line("%s", n)
			}
			return
		case *ast.BlockStmt:
			if containsReturn(s) {
				e.inlineBody(append(append([]ast.Stmt{}, s.List...), list[i+1:]...))
				return
			}
		case *ast.IfStmt:
			if containsReturn(s) {
				if s.Init != nil {
					e.stmt(s.Init)
				}
				rest := list[i+1:]
				cond := e.val(s.Cond)
				e.flushPre()
				e.line("if %s {", cond)
				e.ind++
				a := s.Body.List
				if !terminates(a) {
					a = append(append([]ast.Stmt{}, a...), rest...)
				}
				e.inlineBody(a)
				e.ind--
				e.line("} else {")
				e.ind++
				var b []ast.Stmt
				switch el := s.Else.(type) {
				case *ast.BlockStmt:
					b = el.List
				case *ast.IfStmt:
					b = []ast.Stmt{el}
				}
				if !terminates(b) {
					b = append(append([]ast.Stmt{}, b...), rest...)
				}
				e.inlineBody(b)
				e.ind--
				e.line("}")
				return
			}
		case *ast.ForStmt, *ast.RangeStmt:
			if containsReturn(s) {
				e.loopReturn(s)
				e.inlineBody(list[i+1:])
				e.ind--
				e.line("}")
				return
			}
		}
		e.stmt(s)
	}
}

// loopReturn emits a loop that contains returns: they set a flag and leave it; what follows runs only if it is not set.
func (e *Em) loopReturn(s ast.Stmt) {
	if e.flag != nil || e.inLit {
		e.fail(s, "return inside a loop of a function without a contract (%s)", e.fi.key)
	}
	sig := e.fi.obj.Type().(*types.Signature)
	f := &retFlag{done: e.tmp("d")}
	e.line("let mut %s: bool = false;", f.done)
	if n := sig.Results().Len(); n > 0 {
		var zs, ts []string
		for i := 0; i < n; i++ {
			zs = append(zs, e.t.zero(sig.Results().At(i).Type()))
			ts = append(ts, e.t.rtype(sig.Results().At(i).Type()))
		}
		if e.fi.nilable {
			zs, ts = []string{"None"}, []string{"Option<" + ts[0] + ">"}
		}
		f.val = e.tmp("r")
		z, t := zs[0], ts[0]
		if n > 1 {
			z, t = "("+strings.Join(zs, ", ")+")", "("+strings.Join(ts, ", ")+")"
		}
		e.line("let mut %s: %s = %s;", f.val, t, z)
	}
	e.flag = f
	e.stmt(s)
	e.flag = nil
	if f.val != "" {
		e.line("if %s { %s } else {", f.done, f.val)
	} else {
		e.line("if !%s {", f.done)
	}
	e.ind++
}

func (e *Em) tuple(s *ast.ReturnStmt) string {
	var vs []string
	for i, r := range s.Results {
		if isNil(r) {
			vs = append(vs, e.t.zero(e.fi.obj.Type().(*types.Signature).Results().At(i).Type()))
		} else {
			vs = append(vs, e.moveVal(r))
		}
	}
	return "(" + strings.Join(vs, ", ") + ")"
}

// namedResults: the value of a bare return.
func (e *Em) namedResults() string {
	if e.inLit {
		return ""
	}
	rs := e.fi.obj.Type().(*types.Signature).Results()
	var vs []string
	for i := 0; i < rs.Len(); i++ {
		if rs.At(i).Name() == "" {
			return ""
		}
		vs = append(vs, "go_share(&"+rname(rs.At(i).Name())+")")
	}
	if len(vs) == 1 {
		return vs[0]
	}
	if len(vs) == 0 {
		return ""
	}
	return "(" + strings.Join(vs, ", ") + ")"
}

func (e *Em) declResults() {
	rs := e.fi.obj.Type().(*types.Signature).Results()
	for i := 0; i < rs.Len(); i++ {
		v := rs.At(i)
		if v.Name() != "" && v.Name() != "_" {
			e.kind[v] = "own"
			e.line("let mut %s: %s = %s;", rname(v.Name()), e.t.rtype(v.Type()), e.t.zero(v.Type()))
		}
	}
}

// retVal emits the value of a return statement.
func (e *Em) retVal(x ast.Expr) string {
	x = ast.Unparen(x)
	if e.inLit {
		return e.val(x)
	}
	sig := e.fi.obj.Type().(*types.Signature)
	rt := sig.Results().At(0).Type()
	_, isPtr := rt.Underlying().(*types.Pointer)
	if isPtr && e.fi.nilable {
		if isNil(x) {
			return "None"
		}
		if c, ok := x.(*ast.CallExpr); ok {
			if cf := e.t.calleeOf(c); cf != nil && cf.nilable {
				return e.val(x)
			}
		}
		return "Some(" + e.moveVal(x) + ")"
	}
	if isNil(x) {
		return e.t.zero(rt)
	}
	return e.moveVal(x)
}

// moveVal may move a local out. When the local is only read later (len, indexing), it is shared instead.
func (e *Em) moveVal(x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		if v := e.t.varOf(id); v != nil && e.kind[v] == "own" && e.subst[v] == "" {
			if !e.t.isCopy(v.Type()) && e.laterReads(v, x.End()) {
				return "go_share(&" + e.vname(v) + ")"
			}
			return e.vname(v)
		}
	}
	return e.val(x)
}

// laterReads: v is used after pos, and only to read its length or elements.
func (e *Em) laterReads(v *types.Var, pos token.Pos) bool {
	n, bad := 0, false
	lhs := map[ast.Expr]bool{}
	ok := map[*ast.Ident]bool{}
	ast.Inspect(e.fi.decl.Body, func(m ast.Node) bool {
		switch s := m.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				lhs[ast.Unparen(l)] = true
			}
		case *ast.IncDecStmt:
			lhs[ast.Unparen(s.X)] = true
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				lhs[ast.Unparen(s.X)] = true
			}
		case *ast.CallExpr:
			if id, is := s.Fun.(*ast.Ident); is && id.Name == "len" {
				if a, is := ast.Unparen(s.Args[0]).(*ast.Ident); is {
					ok[a] = true
				}
			}
		case *ast.IndexExpr:
			if a, is := ast.Unparen(s.X).(*ast.Ident); is && !lhs[s] && e.t.isCopy(e.typeOf(s)) {
				ok[a] = true
			}
		case *ast.Ident:
			if s.Pos() > pos && e.t.varOf(s) == v {
				n++
				if !ok[s] {
					bad = true
				}
			}
		}
		return true
	})
	return n > 0 && !bad
}
