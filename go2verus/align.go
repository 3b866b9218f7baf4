package main

// Which loop, condition and return of an edited function corresponds to which of the original.

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
)

type align struct {
	loops, rets, ifs []int // position now -> number in the original (0: none)
	flips            []bool
	marks            map[string][]int  // calls and assignments, by name
	olds             map[string]string // renamed local -> its name in the original
}

// mark: the number, in the original, of the nth call of a function or assignment to a variable
func (a *align) mark(key string, n int) int {
	if a == nil || a.marks[key] == nil {
		return n
	}
	if m := a.marks[key][n-1]; m > 0 {
		return m
	}
	return 1000 + n
}

func (a *align) loop(n int) int {
	if a == nil {
		return n
	}
	return a.loops[n-1]
}

func (a *align) ret(n int) int {
	if a == nil {
		return n
	}
	return a.rets[n-1]
}

func (a *align) iff(n int) (int, bool) {
	if a == nil {
		return n, false
	}
	if a.ifs[n-1] == 0 {
		return 1000 + n, false
	}
	return a.ifs[n-1], a.flips[n-1]
}

func same(a, b []string) bool {
	return strings.Join(a, "\n") == strings.Join(b, "\n") && len(a) == len(b)
}

// renamed: locals of the original that are gone and new ones, type by type, in the order of declaration
func renamed(b *baseFn, now *baseFn) map[string]string {
	params, lets := now.Params, now.Lets
	r := map[string]string{}
	for o, n := range moved(b, now) {
		r[o] = n
	}
	typ, have := map[string]bool{}, map[string]bool{}
	for _, v := range b.Lets {
		typ[v[0]] = true
	}
	for i, v := range b.Params {
		typ[v[0]] = true
		if len(params) == len(b.Params) && params[i][0] != v[0] && params[i][1] == v[1] {
			r[v[0]] = params[i][0]
		}
	}
	for _, v := range append(append([][2]string{}, lets...), params...) {
		have[v[0]] = true
	}
	gone, fresh := map[string][]string{}, map[string][]string{}
	for _, v := range b.Lets {
		if !have[v[0]] && !tempName(v[0]) {
			gone[v[1]] = append(gone[v[1]], v[0])
		}
	}
	for _, v := range lets {
		if !typ[v[0]] && !tempName(v[0]) {
			fresh[v[1]] = append(fresh[v[1]], v[0])
		}
	}
	for ty, g := range gone {
		if len(g) == len(fresh[ty]) && ty != "" {
			for i := range g {
				r[g[i]] = fresh[ty][i]
			}
		}
	}
	return r
}

// moved: parameters that were changed in the original and are now only copied into a variable, which is changed instead
func moved(b, now *baseFn) map[string]string {
	r := map[string]string{}
	for i, v := range b.Params {
		if i >= len(now.Params) || now.Params[i][0] != v[0] || len(b.Marks["assign "+v[0]]) == 0 || len(now.Marks["assign "+v[0]]) > 0 {
			continue
		}
		for _, l := range now.Lets {
			if now.Copies[l[0]] == v[0] && l[1] == v[1] && r[v[0]] == "" {
				r[v[0]] = l[0]
			}
		}
	}
	return r
}

func newAlign(b, now *baseFn) *align {
	ren := renamed(b, now)
	sameMarks := true
	for k, v := range b.Marks {
		if !same(v, now.Marks[k]) {
			sameMarks = false
		}
	}
	if len(ren) == 0 && sameMarks && same(b.Bags, now.Bags) && same(b.Ifs, now.Ifs) && same(b.Rets, now.Rets) {
		return nil
	}
	to := func(l []string) []string {
		if len(ren) == 0 {
			return l
		}
		var r []string
		for _, x := range l {
			r = append(r, rename(x, ren))
		}
		return r
	}
	a := &align{marks: map[string][]int{}, olds: map[string]string{}}
	for o, n := range ren {
		a.olds[n] = o
	}
	a.loops = alignLoops(to(b.Bags), now.Bags)
	a.rets, _ = alignText(to(b.Rets), now.Rets)
	a.ifs, a.flips = alignText(to(b.Ifs), now.Ifs)
	back := func(l []string) []string {
		var r []string
		for _, x := range l {
			r = append(r, rename(x, a.olds))
		}
		return r
	}
	seen := map[string]bool{}
	for k, v := range now.Marks {
		o := rename(k, a.olds)
		if seen[o] {
			continue
		}
		seen[o] = true
		if old := b.Marks[o]; len(old) > 0 && !same(old, v) {
			a.marks[o], _ = alignText(old, back(v))
		}
	}
	return a
}

// similarity of two sets of words, in 0..1000
func similar(x, y string) int {
	a, b := strings.Fields(x), strings.Fields(y)
	in := map[string]bool{}
	for _, w := range a {
		in[w] = true
	}
	n := 0
	for _, w := range b {
		if in[w] {
			n++
		}
	}
	u := len(a) + len(b) - n
	if u == 0 {
		return 1000
	}
	return 1000 * n / u
}

// the order-preserving correspondence with the greatest total similarity
func alignLoops(old, now []string) []int {
	r := make([]int, len(now))
	if len(old) == len(now) {
		for i := range r {
			r[i] = i + 1
		}
		return r
	}
	best := make([][]int, len(old)+1)
	for i := range best {
		best[i] = make([]int, len(now)+1)
	}
	for i := 1; i <= len(old); i++ {
		for j := 1; j <= len(now); j++ {
			m := best[i-1][j-1] + similar(old[i-1], now[j-1])
			if best[i-1][j] > m {
				m = best[i-1][j]
			}
			if best[i][j-1] > m {
				m = best[i][j-1]
			}
			best[i][j] = m
		}
	}
	for i, j := len(old), len(now); i > 0 && j > 0; {
		switch {
		case best[i][j] == best[i-1][j]:
			i--
		case best[i][j] == best[i][j-1]:
			j--
		default:
			r[j-1] = i
			i, j = i-1, j-1
		}
	}
	return r
}

var negOp = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}

// nnf: a condition (or its negation) with negations pushed inwards, and whether it is a disjunction
func nnf(x ast.Expr, neg bool) (string, bool) {
	switch y := ast.Unparen(x).(type) {
	case *ast.UnaryExpr:
		if y.Op == token.NOT {
			return nnf(y.X, !neg)
		}
	case *ast.BinaryExpr:
		if y.Op == token.LAND || y.Op == token.LOR {
			or := (y.Op == token.LOR) != neg
			a, aor := nnf(y.X, neg)
			b, bor := nnf(y.Y, neg)
			if or {
				return a + "||" + b, true
			}
			if aor {
				a = "(" + a + ")"
			}
			if bor {
				b = "(" + b + ")"
			}
			return a + "&&" + b, false
		}
		if n, ok := negOp[y.Op]; ok {
			op := y.Op
			if neg {
				op = n
			}
			return types.ExprString(y.X) + op.String() + types.ExprString(y.Y), false
		}
	}
	if neg {
		return "!" + types.ExprString(x), false
	}
	return types.ExprString(x), false
}

// canon: a condition without its outermost negation
func canon(s string) (string, bool) {
	if strings.HasPrefix(s, "!") && !strings.ContainsAny(s, "&|") {
		return s[1:], true
	}
	if strings.Contains(s, "&&") || strings.Contains(s, "||") {
		x, err := parser.ParseExpr(s)
		if err != nil {
			return s, false
		}
		if t, or := nnf(x, false); !or {
			return t, false
		}
		t, _ := nnf(x, true)
		return t, true
	}
	for _, p := range [][2]string{{"!=", "=="}, {">=", "<"}, {"<=", ">"}} {
		if i := strings.Index(s, p[0]); i > 0 {
			return s[:i] + p[1] + s[i+2:], true
		}
	}
	return s, false
}

func alignText(old, now []string) ([]int, []bool) {
	r, f := make([]int, len(now)), make([]bool, len(now))
	used := make([]bool, len(old))
	if len(old) == len(now) {
		// one for one, unless a text has moved
		moved := false
		for i := range now {
			c, _ := canon(now[i])
			d, _ := canon(old[i])
			if c != d {
				for j := range old {
					if e, _ := canon(old[j]); e == c && j != i {
						moved = true
					}
				}
			}
		}
		if !moved {
			for i := range now {
				c, n := canon(now[i])
				d, m := canon(old[i])
				r[i], f[i] = i+1, c == d && n != m
			}
			return r, f
		}
	}
	for _, exact := range []bool{true, false} {
		for i := range now {
			if r[i] != 0 {
				continue
			}
			c, n := canon(now[i])
			for j := range old {
				d, m := canon(old[j])
				if !used[j] && (now[i] == old[j] || !exact && c == d) {
					r[i], f[i], used[j] = j+1, n != m, true
					break
				}
			}
		}
	}
	// what is left, in order
	j := 0
	for i := range now {
		if r[i] != 0 {
			continue
		}
		for j < len(old) && used[j] {
			j++
		}
		if j < len(old) {
			r[i], used[j] = j+1, true
		}
	}
	return r, f
}
