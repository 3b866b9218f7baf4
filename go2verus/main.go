package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Region struct {
	Fn     string `json:"fn"`
	Module string `json:"module"`
	From   int    `json:"from"`
	To     int    `json:"to"`
	Kind   string `json:"kind"` // fn, raw
	Pos    string `json:"pos"`
}

type Report struct {
	Regions    []Region            `json:"regions"`
	Errors     map[string]string   `json:"errors"`     // function -> why it could not be extracted
	Unanchored map[string][]string `json:"unanchored"` // ghost text that found no anchor
	Trusted    map[string]string   `json:"trusted"`
	Functions  []string            `json:"functions"`
	Inlined    []string            `json:"inlined"`
	Shared     []string            `json:"shared"`
	Missing    []string            `json:"missing"` // unexported functions with a contract that are gone
	Closure    map[string][]string `json:"closure"`
	Dropped    map[string][]string `json:"dropped"` // ghost text left out because what it mentions is gone
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "", "comma separated contract files, in order")
	prelude := flag.String("prelude", "", "trusted prelude")
	out := flag.String("o", "", "output .rs")
	rep := flag.String("report", "", "output report .json")
	probe := flag.Bool("probe", false, "put assert(false) behind every precondition (vacuity probe)")
	base := flag.String("base", "", "names of the locals the contracts were written for")
	wbase := flag.Bool("writebase", false, "update the file given by -base")
	skip := flag.String("skip", "", "functions to emit as external_body")
	flag.Parse()
	files := strings.Split(*specs, ",")
	sp, err := loadSpecs(files)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	t, err := load2(*repo, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	t.probe = *probe
	pre, err := os.ReadFile(*prelude)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	skips := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		if s != "" {
			skips[s] = true
		}
	}
	r := &Report{Errors: map[string]string{}, Unanchored: map[string][]string{}, Trusted: map[string]string{}, Closure: map[string][]string{}}
	if t.framed() {
		pre = []byte(framePrelude(string(pre)))
		t.frameSpecs(r)
	}
	t.names, t.dropped = map[string]*baseFn{}, map[string][]string{}
	b0 := baseline{}
	if *base != "" {
		b0 = readBase(*base)
		if !*wbase {
			t.base = b0[chainKey(files)]
		}
	}
	text := t.crate(string(pre), r, skips)
	if *wbase {
		b0[chainKey(files)] = t.names
		if err := writeBase(*base, b0); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	r.Dropped = t.dropped
	if err := os.WriteFile(*out, []byte(text), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	b, _ := json.MarshalIndent(r, "", " ")
	if *rep != "" {
		os.WriteFile(*rep, b, 0o644)
	}
	for k, v := range r.Errors {
		fmt.Fprintf(os.Stderr, "extract: %s: %s\n", k, v)
	}
	for k, v := range r.Unanchored {
		fmt.Fprintf(os.Stderr, "unanchored: %s: %s\n", k, strings.Join(v, "; "))
	}
	for k, v := range r.Dropped {
		fmt.Fprintf(os.Stderr, "dropped: %s: %s\n", k, strings.Join(v, "; "))
	}
}

func load2(repo string, sp *Spec) (*Tr, error) {
	curSpec = sp
	return load(repo)
}

var curSpec *Spec

func (t *Tr) crate(prelude string, r *Report, skips map[string]bool) string {
	var lines []string
	add := func(s string) {
		lines = append(lines, strings.Split(strings.TrimRight(s, "\n"), "\n")...)
	}
	add(prelude)
	// types
	add("// ---- types extracted from the repository\nverus! {")
	var names []string
	for _, n := range t.pkg.Scope().Names() {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		tn, ok := t.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					u, ok := x.(unsupported)
					if !ok {
						panic(x)
					}
					r.Errors["type "+n] = u.msg
				}
			}()
			var fs []string
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, "  pub "+rname(st.Field(i).Name())+": "+t.rtype(st.Field(i).Type())+",")
			}
			for _, g := range t.spec.ghost[n] {
				fs = append(fs, "  pub "+g.name+": "+g.typ+",")
			}
			d := ""
			if t.isCopy(tn.Type()) {
				d = "#[derive(Clone, Copy)]\n"
			}
			if strings.Contains(strings.Join(fs, " "), "interface") {
				return
			}
			add(d + "pub struct " + n + " {\n" + strings.Join(fs, "\n") + "\n}")
		}()
	}
	// immutable package variables
	var gl []*types.Var
	used := map[*types.Var]bool{}
	reach := map[*FnInfo]bool{}
	var visit func(f *FnInfo)
	visit = func(f *FnInfo) {
		if f == nil || reach[f] || f.decl.Body == nil {
			return
		}
		reach[f] = true
		for v := range f.globals {
			used[v] = true
		}
		ast.Inspect(f.decl.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				visit(t.calleeOf(c))
			}
			return true
		})
	}
	for n := range t.spec.fns {
		visit(t.funcs[n])
	}
	for v := range t.globalInit {
		gl = append(gl, v)
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].Name() < gl[j].Name() })
	for _, v := range gl {
		func() {
			defer func() {
				if x := recover(); x != nil {
					u, ok := x.(unsupported)
					if !ok {
						panic(x)
					}
					if used[v] {
						r.Errors["var "+v.Name()] = u.msg
					}
				}
			}()
			if t.globalMut[v] {
				add(fmt.Sprintf("#[verifier::external_body]\npub fn any_g_%s() -> (r: %s) { unimplemented!() }", v.Name(), t.rtype(v.Type())))
				return
			}
			add(t.globalFn(v))
		}()
	}
	add("}")
	byMod := map[string][]string{}
	for _, n := range t.spec.fnNames() {
		byMod[t.spec.fns[n].module] = append(byMod[t.spec.fns[n].module], n)
	}
	traitDone := map[string]bool{}
	for _, m := range t.spec.modules {
		add("// ---- module " + m + "\npub mod " + m + " {\n#[allow(unused_imports)] use super::*;\nverus! {\nbroadcast use {vstd::group_vstd_default};")
		for _, raw := range t.spec.raw[m] {
			from := len(lines) + 1
			add(raw)
			r.Regions = append(r.Regions, Region{"", m, from, len(lines), "raw", ""})
		}
		for _, n := range byMod[m] {
			fs := t.spec.fns[n]
			fi := t.funcs[n]
			if fi == nil {
				// a helper may go: its callers are verified without it
				last := n[strings.LastIndex(n, ".")+1:]
				if ast.IsExported(last) {
					r.Errors[n] = "function with a contract is missing from the repository"
				} else {
					r.Missing = append(r.Missing, n)
				}
				continue
			}
			r.Functions = append(r.Functions, n)
			if fs.trusted != "" {
				r.Trusted[n] = fs.trusted
			}
			from := len(lines) + 1
			txt, err := t.emitFn(fi, fs, skips[n])
			if err != "" {
				r.Errors[n] = err
			}
			if im, ok := t.spec.impls[recvName(fi)]; ok && !traitDone[recvName(fi)] && t.isTraitMethod(im.trait, fi.decl.Name.Name) {
				traitDone[recvName(fi)] = true
				txt = "impl " + im.trait + " for " + recvName(fi) + " {\n" + im.text + txt + "\n}"
			} else if fi.recv != nil && isStructNamed(fi.recv.Type()) {
				txt = "impl " + recvName(fi) + " {\n" + txt + "\n}"
			}
			add(txt)
			r.Regions = append(r.Regions, Region{n, m, from, len(lines), "fn", t.fset.Position(fi.decl.Pos()).String()})
			r.Closure[n] = t.callees(fi)
			if err == "" && !skips[n] {
				for k := range fs.at {
					if !fs.atUsed[k] {
						r.Unanchored[n] = append(r.Unanchored[n], "@at "+k)
					}
				}
				for k := range fs.loops {
					if !fs.loopUsed[k] {
						r.Unanchored[n] = append(r.Unanchored[n], fmt.Sprintf("@loop %d", k))
					}
				}
			}
		}
		add("}\n}\n#[allow(unused_imports)] pub use " + m + "::*;")
	}
	for k := range t.inlined {
		r.Inlined = append(r.Inlined, k)
	}
	sort.Strings(r.Inlined)
	for k, v := range t.spec.share {
		if t.spec.shareUsed[k] {
			r.Shared = append(r.Shared, k+" -- "+v)
		}
	}
	sort.Strings(r.Shared)
	add("fn main() {}")
	return strings.Join(lines, "\n") + "\n"
}

func recvName(fi *FnInfo) string {
	if fi.recv == nil {
		return ""
	}
	return namedName(fi.recv.Type())
}

func (t *Tr) isTraitMethod(trait, m string) bool {
	o := t.pkg.Scope().Lookup(trait)
	if o == nil {
		return false
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == m {
			return true
		}
	}
	return false
}

// callees: functions with contracts reachable from fi through inlined code (one contract level).
func (t *Tr) callees(fi *FnInfo) []string {
	seen := map[*FnInfo]bool{}
	set := map[string]bool{}
	var visit func(f *FnInfo)
	visit = func(f *FnInfo) {
		if seen[f] || f.decl.Body == nil {
			return
		}
		seen[f] = true
		ast.Inspect(f.decl.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if cf := t.calleeOf(c); cf != nil {
					if t.spec.fns[cf.key] != nil {
						set[cf.key] = true
					} else {
						visit(cf)
					}
				}
			}
			return true
		})
	}
	visit(fi)
	var r []string
	for k := range set {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (t *Tr) globalFn(v *types.Var) string {
	init := t.globalInit[v]
	rt := ""
	if m, ok := v.Type().Underlying().(*types.Map); ok {
		kt, vt := t.rtype(m.Key()), t.rtype(m.Elem())
		cl, ok := init.(*ast.CompositeLit)
		if !ok {
			panic(unsupported{v.Pos(), "map initializer"})
		}
		exec, spec := "", ""
		for _, el := range cl.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := t.info.Types[kv.Key].Value.ExactString()
			w := t.info.Types[kv.Value].Value.ExactString()
			exec += fmt.Sprintf("  if k == %s%s { return (%s%s, true); }\n", k, kt, w, vt)
			spec += fmt.Sprintf("  if k == %s { (%s, true) } else ", k, w)
		}
		return fmt.Sprintf("pub open spec fn sg_%s(k: int) -> (int, bool) {\n%s { (0, false) }\n}\n", v.Name(), spec) +
			fmt.Sprintf("pub fn g_%s(k: %s) -> (r: (%s, bool))\n  ensures r.0 == sg_%s(k as int).0, r.1 == sg_%s(k as int).1\n{\n%s  (0%s, false)\n}", v.Name(), kt, vt, v.Name(), v.Name(), exec, vt)
	}
	rt = t.rtype(v.Type())
	switch v.Type().Underlying().(type) {
	case *types.Slice:
		ex, sp := t.litSlice(init)
		facts := t.litFacts(init, "r")
		pr := ""
		if d := map[string]string{"Vec<i64>": "dv1", "Vec<Vec<i64>>": "dv2"}[rt]; d != "" {
			facts = d + "(r@) == sg_" + v.Name() + "()"
			pr = "proof { assert(" + d + "(r@) =~~= sg_" + v.Name() + "()); } "
		}
		if pr != "" {
			return fmt.Sprintf("pub open spec fn sg_%s() -> %s { %s }\n", v.Name(), specSeq(v.Type()), sp) +
				fmt.Sprintf("pub fn g_%s() -> (r: %s)\n  ensures %s\n{ let r = %s; %sr }", v.Name(), rt, facts, ex, pr)
		}
		return fmt.Sprintf("pub open spec fn sg_%s() -> %s { %s }\n", v.Name(), specSeq(v.Type()), sp) +
			fmt.Sprintf("pub fn g_%s() -> (r: %s)\n  ensures %s\n{ %s }", v.Name(), rt, facts, ex)
	}
	if tv := t.info.Types[init]; tv.Value != nil && tv.Value.Kind() == constant.Int {
		return fmt.Sprintf("pub fn g_%s() -> (r: %s) ensures r == %s { %s%s }", v.Name(), rt, tv.Value.ExactString(), tv.Value.ExactString(), rt)
	}
	panic(unsupported{v.Pos(), "package variable"})
}

func specSeq(ty types.Type) string {
	if s, ok := ty.Underlying().(*types.Slice); ok {
		return "Seq<" + specSeq(s.Elem()) + ">"
	}
	return "int"
}

// resolves a package level slice literal (following other package level variables)
func (t *Tr) resolve(x ast.Expr) *ast.CompositeLit {
	switch x := ast.Unparen(x).(type) {
	case *ast.CompositeLit:
		return x
	case *ast.Ident:
		if v := t.varOf(x); v != nil {
			if t.globalMut[v] {
				panic(unsupported{x.Pos(), "initializer uses mutable variable"})
			}
			if i, ok := t.globalInit[v]; ok && i != nil {
				return t.resolve(i)
			}
		}
	}
	panic(unsupported{x.Pos(), "initializer"})
}

func (t *Tr) litSlice(x ast.Expr) (string, string) {
	cl := t.resolve(x)
	var ex, sp []string
	for _, el := range cl.Elts {
		if tv, ok := t.info.Types[el]; ok && tv.Value != nil {
			ex = append(ex, tv.Value.ExactString()+t.rtype(tv.Type))
			sp = append(sp, tv.Value.ExactString()+"int")
			continue
		}
		a, b := t.litSlice(el)
		ex = append(ex, a)
		sp = append(sp, b)
	}
	return "vec![" + strings.Join(ex, ", ") + "]", "seq![" + strings.Join(sp, ", ") + "]"
}

func (t *Tr) litFacts(x ast.Expr, p string) string {
	cl := t.resolve(x)
	fs := []string{fmt.Sprintf("%s@.len() == %d", p, len(cl.Elts))}
	for i, el := range cl.Elts {
		q := fmt.Sprintf("%s@[%d]", p, i)
		if tv, ok := t.info.Types[el]; ok && tv.Value != nil {
			fs = append(fs, fmt.Sprintf("%s == %s", q, tv.Value.ExactString()))
			continue
		}
		fs = append(fs, t.litFacts(el, q))
	}
	return strings.Join(fs, ", ")
}

// emitFn: the first time to see the loops, conditions and returns of the function, then with the ghost text at those that
// correspond to the ones it was written for.
func (t *Tr) emitFn(fi *FnInfo, fs *FnSpec, skip bool) (txt string, errs string) {
	b := t.base[fi.key]
	if b == nil || t.framed() {
		return t.emitFn1(fi, fs, skip, nil)
	}
	txt, errs = t.emitFn1(fi, fs, skip, nil)
	now := t.names[fi.key]
	if errs != "" || now == nil {
		return
	}
	al := newAlign(b, now)
	if al == nil {
		return
	}
	fs.atUsed, fs.loopUsed = map[string]bool{}, map[int]bool{}
	delete(t.dropped, fi.key)
	return t.emitFn1(fi, fs, skip, al)
}

func (t *Tr) emitFn1(fi *FnInfo, fs *FnSpec, skip bool, al *align) (txt string, errs string) {
	e := &Em{t: t, host: fi, fi: fi, sp: fs, cnt: &counters{al: al, call: map[string]int{}, assign: map[string]int{}, marks: map[string][]string{}}, subst: map[*types.Var]string{}, kind: map[*types.Var]string{}, names: map[*types.Var]string{}, lits: map[*types.Var]*litVal{}, sliceAlias: map[*types.Var]ast.Expr{}}
	sigOnly := skip || fs.trusted != ""
	var dropped []string
	defer func() {
		if len(dropped) > 0 {
			t.dropped[fi.key] = dropped
		}
	}()
	var body string
	sig := fi.obj.Type().(*types.Signature)
	var ps []string
	var gens []string
	if fi.recv != nil {
		if isStructNamed(fi.recv.Type()) {
			e.subst[fi.recv] = "self"
			if fi.mut[fi.recv] {
				ps = append(ps, "&mut self")
			} else {
				ps = append(ps, "&self")
			}
		} else {
			m := "&"
			e.kind[fi.recv] = "ref"
			if fi.mut[fi.recv] {
				m = "&mut "
				e.kind[fi.recv] = "refmut"
			}
			ps = append(ps, rname(fi.recv.Name())+": "+m+t.rtype(fi.recv.Type()))
		}
	}
	var entry []string
	err := func() (msg string) {
		defer func() {
			if x := recover(); x != nil {
				u, ok := x.(unsupported)
				if !ok {
					panic(x)
				}
				msg = fmt.Sprintf("%s: %s", t.fset.Position(u.pos), u.msg)
			}
		}()
		for i, p := range fi.params {
			n := rname(p.Name())
			if n == "" || n == "_" {
				n = fmt.Sprintf("_p%d", i)
			}
			if isFuncType(p.Type()) {
				gens = append(gens, "F_"+n+": "+t.fnTrait(p.Type()))
				ps = append(ps, n+": F_"+n)
				if fi.reassign[p] {
					panic(unsupported{fi.decl.Pos(), "function parameter " + n + " is reassigned"})
				}
				continue
			}
			if isRefLike(p.Type()) {
				m := "&"
				e.kind[p] = "ref"
				if fi.mut[p] {
					m = "&mut "
					e.kind[p] = "refmut"
				}
				rt := t.rtype(p.Type())
				if it, ok := p.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && t.spec.iface[namedName(p.Type())] == "" && !strings.HasPrefix(rt, "Go") {
					gens = append(gens, "T_"+n+": "+rt)
					rt = "T_" + n
				}
				ps = append(ps, n+": "+m+rt)
				if fi.reassign[p] {
					if fi.mut[p] {
						panic(unsupported{fi.decl.Pos(), "reference parameter " + n + " is reassigned and written through"})
					}
					entry = append(entry, fmt.Sprintf("let mut %s: %s = go_share(%s);", n, rt, n))
					e.kind[p] = "own"
				}
				continue
			}
			ps = append(ps, n+": "+t.rtype(p.Type()))
			if fi.reassign[p] {
				entry = append(entry, fmt.Sprintf("let ghost %s_0 = %s;", n, n), fmt.Sprintf("let mut %s: %s = %s;", n, t.rtype(p.Type()), n))
			}
		}
		return ""
	}()
	ret := ""
	rerr := guard(func() { ret = t.results(fi, fs, sig) })
	if rerr != "" {
		return "fn bad_" + strings.ReplaceAll(fi.key, ".", "_") + "() { }", rerr
	}
	if err == "" && !sigOnly {
		err = func() (msg string) {
			defer func() {
				if x := recover(); x != nil {
					u, ok := x.(unsupported)
					if !ok {
						panic(x)
					}
					p := u.pos
					if p == 0 {
						p = fi.decl.Pos()
					}
					msg = fmt.Sprintf("%s: %s", filepath.Base(t.fset.Position(p).String()), u.msg)
				}
			}()
			if a := t.aliasErrors(fi); len(a) > 0 {
				panic(unsupported{fi.decl.Pos(), a[0]})
			}
			e.ind = 1
			var gv []*types.Var
			for v := range fi.globals {
				if t.globalMut[v] {
					gv = append(gv, v)
				}
			}
			sort.Slice(gv, func(i, j int) bool { return gv[i].Name() < gv[j].Name() })
			for _, v := range gv {
				t.checkGlobal(fi, v)
				e.line("let mut g_%s: %s = any_g_%s();", v.Name(), t.rtype(v.Type()), v.Name())
				e.kind[v] = "own"
			}
			for _, l := range entry {
				e.line("%s", l)
			}
			e.declResults()
			e.at("entry")
			if t.probe {
				e.line("proof { assert(false); }")
			}
			e.stmts(fi.decl.Body.List)
			e.at("exit")
			// headers go first
			var head, rest []string
			for _, l := range strings.Split(strings.Join(e.lines, "\n"), "\n") {
				if strings.HasPrefix(strings.TrimSpace(l), "hide(") {
					head = append(head, l)
				} else {
					rest = append(rest, l)
				}
			}
			body = strings.Join(append(head, rest...), "\n")
			var now [][2]string
			for _, p := range ps {
				if i := strings.Index(p, ":"); i > 0 {
					now = append(now, [2]string{p[:i], strings.TrimPrefix(strings.TrimPrefix(strings.TrimSpace(p[i+1:]), "&mut "), "&")})
				}
			}
			sort.Strings(e.cnt.bits)
			t.names[fi.key] = &baseFn{now, letsOf(body), e.cnt.loops, e.cnt.bags, e.cnt.ifs, e.cnt.rets, e.cnt.bits, e.cnt.marks, lensOf(body), copiesOf(body)}
			if b := t.base[fi.key]; b != nil && !same(b.Bits, e.cnt.bits) {
				// written with other bit operations than when the contract was: what they are in other terms
				seen := map[string]bool{}
				head = append(head, "  proof {")
				for _, f := range e.cnt.facts {
					if !seen[f] {
						seen[f] = true
						head = append(head, f)
					}
				}
				head = append(head, "  }")
				body = strings.Join(append(head, rest...), "\n")
			}
			var pm map[string]string
			body, pm, dropped = adapt(body, t.names[fi.key], t.base[fi.key], fs)
			if len(pm) > 0 {
				c := *fs
				c.requires, c.ensures, c.decreases = rename(fs.requires, pm), rename(fs.ensures, pm), rename(fs.decreases, pm)
				fs = &c
			}
			return ""
		}()
	}
	var sb strings.Builder
	pureText := ""
	sb.WriteString("#[verifier::loop_isolation(false)]\n")
	for _, a := range fs.attrs {
		sb.WriteString(a + "\n")
	}
	if sigOnly || err != "" {
		sb.WriteString("#[verifier::external_body]\n")
		body = "  unimplemented!()"
	}
	name := fi.decl.Name.Name
	if fi.recv != nil && !isStructNamed(fi.recv.Type()) {
		name = recvName(fi) + "_" + name
	}
	if fs.pure != "" && err == "" {
		if msg := t.notPure(fi); msg != "" {
			return sb.String() + "fn " + name + "() { unimplemented!() }", msg
		}
		var as []string
		for _, p := range ps {
			as = append(as, p[:strings.Index(p, ":")])
		}
		rt := t.rtype(sig.Results().At(0).Type())
		var w strings.Builder
		fmt.Fprintf(&w, "pub uninterp spec fn %s(%s) -> %s;\n", fs.pure, strings.Join(ps, ", "), rt)
		fmt.Fprintf(&w, "#[verifier::external_body]\npub fn %s(%s)%s\n", rname(name), strings.Join(ps, ", "), ret)
		if fs.requires != "" {
			w.WriteString("  requires\n" + fs.requires)
		}
		fmt.Fprintf(&w, "  ensures\n%s    %s == %s(%s),\n{ unimplemented!() }\n", fs.ensures, fs.ret, fs.pure, strings.Join(as, ", "))
		pureText = w.String()
		name += "__body"
	}
	pub := "pub "
	if im, ok := t.spec.impls[recvName(fi)]; ok && t.isTraitMethod(im.trait, fi.decl.Name.Name) {
		pub = ""
	}
	sb.WriteString(pub + "fn " + rname(name) + generics(gens) + "(" + strings.Join(ps, ", ") + ")" + ret + "\n")
	if pub != "" && fs.requires != "" {
		sb.WriteString("  requires\n" + fs.requires)
	}
	if fs.ensures != "" {
		sb.WriteString("  ensures\n" + fs.ensures)
	}
	if fs.decreases != "" {
		sb.WriteString("  decreases\n" + fs.decreases)
	}
	sb.WriteString("{\n" + body + "\n}")
	return pureText + sb.String(), err
}

// a function of plain values whose result depends on nothing else
func (t *Tr) notPure(fi *FnInfo) string {
	if fi.recv != nil || fi.obj.Type().(*types.Signature).Results().Len() != 1 {
		return "@pure: not a function with one result"
	}
	for _, p := range fi.params {
		if _, ok := p.Type().Underlying().(*types.Basic); !ok {
			return "@pure: parameter " + p.Name() + " is not a plain value"
		}
	}
	seen := map[*FnInfo]bool{}
	msg := ""
	var visit func(f *FnInfo)
	visit = func(f *FnInfo) {
		if seen[f] {
			return
		}
		seen[f] = true
		for v := range f.globals {
			if t.globalMut[v] {
				msg = "@pure: reads the mutable package variable " + v.Name()
			}
		}
		ast.Inspect(f.decl.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if tv, ok := t.info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
					return true
				}
				if cf := t.calleeOf(c); cf != nil && cf.decl.Body != nil {
					visit(cf)
				} else {
					msg = "@pure: calls something that is not a function of this package"
				}
			}
			return true
		})
	}
	visit(fi)
	return msg
}

// a mutable package variable is modelled as an arbitrary value at function entry; no callee may touch it
func (t *Tr) checkGlobal(fi *FnInfo, v *types.Var) {
	seen := map[*FnInfo]bool{fi: true}
	var visit func(f *FnInfo)
	visit = func(f *FnInfo) {
		if f.decl.Body == nil {
			return
		}
		ast.Inspect(f.decl.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if cf := t.calleeOf(c); cf != nil && !seen[cf] {
					seen[cf] = true
					if cf.globals[v] {
						panic(unsupported{c.Pos(), "callee " + cf.key + " shares the mutable package variable " + v.Name()})
					}
					visit(cf)
				}
			}
			return true
		})
	}
	visit(fi)
}

func generics(gs []string) string {
	if len(gs) == 0 {
		return ""
	}
	return "<" + strings.Join(gs, ", ") + ">"
}

func (t *Tr) results(fi *FnInfo, fs *FnSpec, sig *types.Signature) (ret string) {
	switch sig.Results().Len() {
	case 0:
	case 1:
		rt := t.rtype(sig.Results().At(0).Type())
		if fi.nilable {
			rt = "Option<" + rt + ">"
		}
		if fi.retPlace != nil {
			rt = "&" + rt
		}
		ret = " -> (" + fs.ret + ": " + rt + ")"
	default:
		var rs []string
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, t.rtype(sig.Results().At(i).Type()))
		}
		ret = " -> (" + fs.ret + ": (" + strings.Join(rs, ", ") + "))"
	}
	return ret
}

func guard(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(unsupported)
			if !ok {
				panic(x)
			}
			msg = u.msg
		}
	}()
	f()
	return ""
}
