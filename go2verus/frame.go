package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp"
	"strings"
)

// Frame mode (@frame): partial correctness of one postcondition, generated for every function reachable from the
// exported methods of the framed types: what they hold is left as it was.  A panic ends the call, so positions and
// divisors are passed through functions that return only when they are fine, and arithmetic wraps as in Go.

func (t *Tr) framed() bool { return len(t.spec.frame) > 0 }

func (e *Em) rangeIndex(p, iv string) string {
	s := "(" + iv + ") as usize"
	if e.t.framed() {
		s = "go_inside(" + s + ", " + p + ".len())"
	}
	return s
}

func (e *Em) frameIndex(base string, x ast.Expr, mut bool) string {
	s := "go_inside((" + e.val(x) + ") as usize, " + base + ".len())"
	if mut {
		n := e.tmp("i")
		e.pre = append(e.pre, fmt.Sprintf("let %s: usize = %s;", n, s))
		return n
	}
	return s
}

var requiresLine = regexp.MustCompile(`(?m)^  requires .*\n`)

func framePrelude(s string) string {
	s = requiresLine.ReplaceAllString(s, "")
	return s + `
verus! {
// the remaining ways to panic
#[verifier::external_body]
pub fn go_inside(i: usize, n: usize) -> (r: usize) ensures r == i, r < n { if i >= n { panic!() } i }
pub trait GoNumber: Sized { spec fn nonzero(self) -> bool; }
impl GoNumber for u8 { open spec fn nonzero(self) -> bool { self != 0 } }
impl GoNumber for u32 { open spec fn nonzero(self) -> bool { self != 0 } }
impl GoNumber for u64 { open spec fn nonzero(self) -> bool { self != 0 } }
#[verifier::external_body]
pub fn go_nonzero<T: GoNumber>(x: T) -> (r: T) ensures r == x, x.nonzero() { unimplemented!() }
}
`
}

// frameOf lists the places below p (of type ty) that must stay as they are; "" is p itself.
func (t *Tr) frameOf(ty types.Type) []string {
	n := namedName(ty)
	if t.spec.frame[n] {
		return []string{""}
	}
	st, ok := deref(ty).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fn := namedName(f.Type())
		if m, ok := t.spec.iface[fn]; ok {
			fn = m
		}
		if t.spec.frame[fn] {
			r = append(r, "."+rname(f.Name()))
		}
	}
	return r
}

// frameSpecs gives every function reachable from the roots its generated contract.
func (t *Tr) frameSpecs(r *Report) {
	var work []*FnInfo
	seen := map[*FnInfo]bool{}
	push := func(f *FnInfo) {
		if f != nil && !seen[f] && f.decl.Body != nil {
			seen[f] = true
			work = append(work, f)
		}
	}
	for k, f := range t.funcs {
		if t.spec.frameSkip[k] {
			continue
		}
		if f.recv != nil && ast.IsExported(f.decl.Name.Name) && len(t.frameOf(f.recv.Type())) > 0 && !t.spec.frameSkip[recvName(f)+".*"] {
			push(f)
		}
	}
	for _, k := range t.spec.frameRoot {
		if t.funcs[k] == nil {
			r.Errors[k] = "function is missing from the repository"
		}
		push(t.funcs[k])
	}
	mod := t.spec.modules[len(t.spec.modules)-1]
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		ast.Inspect(f.decl.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				push(t.calleeOf(c))
			}
			return true
		})
		for v := range f.globals {
			if t.globalMut[v] {
				r.Errors[f.key] = "a query uses the package variable " + v.Name() + ", which is written after initialization"
			}
		}
		if f.retPlace != nil {
			continue // expanded where it is called
		}
		fs := &FnSpec{name: f.key, module: mod, ret: "r", wrapping: true, loops: map[int]string{}, at: map[string]string{}, atUsed: map[string]bool{}, loopUsed: map[int]bool{}, where: "generated"}
		fs.attrs = []string{"#[verifier::exec_allows_no_decreases_clause]"}
		var inv []string
		frame := func(v *types.Var, name string) {
			if !f.mut[v] {
				return
			}
			for _, p := range t.frameOf(v.Type()) {
				if p == "" {
					fs.ensures += fmt.Sprintf("    *final(%s) == *old(%s),\n", name, name)
					inv = append(inv, fmt.Sprintf("*%s == *old(%s)", name, name))
				} else {
					fs.ensures += fmt.Sprintf("    final(%s)%s == old(%s)%s,\n", name, p, name, p)
					inv = append(inv, fmt.Sprintf("%s%s == old(%s)%s", name, p, name, p))
				}
			}
		}
		if f.recv != nil && isStructNamed(f.recv.Type()) {
			frame(f.recv, "self")
		}
		for _, p := range f.params {
			if isRefLike(p.Type()) {
				frame(p, rname(p.Name()))
			}
		}
		if len(inv) > 0 {
			fs.frameInv = "  invariant " + strings.Join(inv, ", ") + ","
		}
		t.spec.fns[f.key] = fs
	}
}
