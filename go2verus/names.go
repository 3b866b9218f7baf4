package main

// Names. Ghost text (proof hints and loop invariants) mentions local variables of the function it is put into. When the
// function has been edited, a local may have another name, live in another block, or be gone. This pass compares the
// locals with those of the tree the contracts were written for (-base FILE, regenerated with -writebase) and renames,
// moves or drops ghost text accordingly. It never touches what is to be proved: preconditions and postconditions only
// follow renamed parameters, by position; hints and invariants are checked by the verifier wherever they end up.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

type baseFn struct {
	Params [][2]string `json:"params"`
	Lets   [][2]string `json:"lets"`
	Loops  []string    `json:"loops"` // while, loop
	Bags   []string    `json:"bags"`  // the identifiers of each loop
	Ifs    []string    `json:"ifs"`   // conditions
	Rets   []string    `json:"rets"`  // returned expressions
	Bits   []string    `json:"bits"`  // bit operations, sorted
	// calls by function and assignments by variable, in order: arguments, right-hand sides
	Marks map[string][]string `json:"marks"`
	// the length that a hidden loop bound stands for
	Lens map[string]string `json:"lens,omitempty"`
	// variables that begin as a copy of another
	Copies map[string]string `json:"-"`
}

type baseline map[string]map[string]*baseFn // contract files -> function -> names

func chainKey(files []string) string {
	var r []string
	for _, f := range files {
		r = append(r, strings.TrimSuffix(filepath.Base(f), ".vs"))
	}
	return strings.Join(r, ",")
}

func readBase(file string) baseline {
	b := baseline{}
	if s, err := os.ReadFile(file); err == nil {
		json.Unmarshal(s, &b)
	}
	return b
}

func writeBase(file string, b baseline) error {
	s, err := json.MarshalIndent(b, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(s, '\n'), 0o644)
}

var (
	letLine   = regexp.MustCompile(`^\s*let (mut )?(\w+)(: ([^=]+?))? = `)
	ghostLine = regexp.MustCompile(`^\s*let ghost (mut )?(\w+)`)
	identRe   = regexp.MustCompile(`[A-Za-z_]\w*`)
	ghostLet  = regexp.MustCompile(`let ghost (mut )?(\w+)(: [^=]+?)? = `)
	innerLet  = regexp.MustCompile(`let (?:mut )?(\w+)`)
	binderRe  = regexp.MustCompile(`\|([^|]*)\|`)
)

const markEnd = "//@@end"

func uncomment(l string) string {
	if i := strings.Index(l, "//"); i >= 0 {
		return l[:i]
	}
	return l
}

// occurrences of identifiers that name a variable: not a field, a function, a path, or the name in "name: type"
func idents(s string, f func(from, to int, name string)) {
	for _, m := range identRe.FindAllStringIndex(s, -1) {
		a, b := m[0], m[1]
		if a > 0 && (s[a-1] >= '0' && s[a-1] <= '9') {
			continue // suffix of a number
		}
		p := strings.TrimRight(s[:a], " ")
		if strings.HasSuffix(p, ".") && !strings.HasSuffix(p, "..") {
			continue
		}
		n := strings.TrimLeft(s[b:], " ")
		if strings.HasPrefix(n, "(") || strings.HasPrefix(n, "::") || strings.HasPrefix(n, "!") && !strings.HasPrefix(n, "!=") || strings.HasPrefix(n, ":") {
			continue
		}
		f(a, b, s[a:b])
	}
}

func rename(s string, m map[string]string) string {
	if len(m) == 0 {
		return s
	}
	var sb strings.Builder
	at := 0
	idents(s, func(a, b int, n string) {
		if r, ok := m[n]; ok {
			sb.WriteString(s[at:a] + r)
			at = b
		}
	})
	sb.WriteString(s[at:])
	return sb.String()
}

type scopeVar struct{ name, typ string }

type namePass struct {
	base      *baseFn
	baseTyp   map[string]string
	ghostAll  map[string]bool // ghost variables of the contract
	scopes    [][]scopeVar
	global    map[string]string
	hoist     map[string]bool
	need      map[string]bool
	dropped   []string
	hoistType map[string]string
	moved     map[string]string // parameter -> the variable that is changed in its place
	off       map[string]string // hidden position in a part of a slice -> where the part begins
	taken     map[string]string // new name -> the original name it stands for
}

func (p *namePass) lookup(n string) bool {
	for _, s := range p.scopes {
		for _, v := range s {
			if v.name == n {
				return true
			}
		}
	}
	return false
}

func intType(t string) bool {
	switch strings.TrimPrefix(t, "&") {
	case "i64", "u32", "u8", "i32", "u64", "usize":
		return true
	}
	return false
}

// candidate: the innermost variable in scope that the original did not have, of the type of x
func (p *namePass) candidate(x string) string {
	if y, ok := p.global[x]; ok && p.lookup(y) {
		return y
	}
	want := p.baseTyp[x]
	// one that stands for nothing else, if possible
	for _, k := range []int{0, 1, 2, 3} {
		strict, free := k < 2, k%2 == 0
		for i := len(p.scopes) - 1; i >= 0; i-- {
			for j := len(p.scopes[i]) - 1; j >= 0; j-- {
				v := p.scopes[i][j]
				if _, old := p.baseTyp[v.name]; old || v.typ == "" || v.typ == "ghost" || strings.HasPrefix(v.name, "__n") || strings.HasPrefix(v.name, "__t") {
					continue
				}
				if o, t := p.taken[v.name]; free && t && o != x {
					continue
				}
				if v.typ == want || !strict && (strings.TrimPrefix(v.typ, "&") == strings.TrimPrefix(want, "&") || intType(v.typ) && intType(want)) {
					p.taken[v.name] = x
					return v.name
				}
			}
		}
	}
	return ""
}

func bound(s string) map[string]bool {
	b := map[string]bool{}
	for _, m := range binderRe.FindAllStringSubmatch(s, -1) {
		for _, part := range strings.Split(m[1], ",") {
			if i := strings.Index(part, ":"); i > 0 {
				b[strings.TrimSpace(part[:i])] = true
			}
		}
	}
	for _, m := range innerLet.FindAllStringSubmatch(s, -1) {
		b[m[1]] = true
	}
	return b
}

// text adapts one piece of ghost text; ok is false if it mentions something that is gone
func (p *namePass) text(s string) (string, bool) {
	b := bound(s)
	for _, m := range ghostLet.FindAllStringSubmatch(s, -1) {
		b[m[2]] = true
	}
	m := map[string]string{}
	ok := true
	idents(s, func(_, _ int, n string) {
		if b[n] || m[n] != "" {
			return
		}
		if y, ok := p.moved[n]; ok && p.lookup(y) {
			m[n] = y
			return
		}
		if p.lookup(n) {
			return
		}
		if t := strings.TrimSuffix(n, "_0"); t != n && p.lookup(t) {
			m[n] = t
			return
		}
		if p.ghostAll[n] {
			p.need[n] = true
			if !p.hoist[n] {
				ok = false
			}
			return
		}
		if _, local := p.baseTyp[n]; local {
			if c := p.candidate(n); c != "" && p.off[c] != "" && !tempName(n) && !strings.HasPrefix(n, "__i") {
				m[n] = "(" + p.off[c] + " + " + c + ")"
			} else if l := p.base.Lens[n]; l != "" {
				t, has := p.text(l)
				m[n], ok = t, ok && has
			} else if c := p.candidate(n); c != "" {
				m[n] = c
			} else {
				ok = false
			}
		}
	})
	return rename(s, m), ok
}

// clauses splits a loop specification at its top-level commas, keeping its keywords
func clauses(s string) []string {
	var r []string
	depth, at := 0, 0
	bar := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case '|':
			if i+1 < len(s) && s[i+1] == '|' && !bar {
				i++
				continue
			}
			bar = !bar
		case ',':
			if depth == 0 && !bar {
				r = append(r, s[at:i+1])
				at = i + 1
			}
		}
	}
	return append(r, s[at:])
}

var loopKw = regexp.MustCompile(`^\s*(invariant_except_break|invariant|ensures|decreases)\b`)

func (p *namePass) loop(s string) string {
	// one clause list per keyword
	var out strings.Builder
	lines := strings.Split(s, "\n")
	var seg string
	flush := func() {
		if strings.TrimSpace(seg) == "" {
			out.WriteString(seg)
			return
		}
		kw := loopKw.FindString(seg)
		rest := seg[len(kw):]
		if strings.TrimSpace(kw) == "decreases" || kw == "" {
			t, _ := p.text(rest)
			out.WriteString(kw + t)
			return
		}
		var keep []string
		for _, c := range clauses(rest) {
			if t, ok := p.text(c); ok {
				keep = append(keep, t)
			} else {
				p.dropped = append(p.dropped, strings.TrimSpace(c))
			}
		}
		if strings.TrimSpace(strings.Join(keep, "")) != "" {
			out.WriteString(kw + strings.TrimRight(strings.Join(keep, ""), "\n") + "\n")
		}
	}
	for _, l := range lines {
		if loopKw.MatchString(l) {
			flush()
			seg = ""
		}
		seg += uncomment(l) + "\n"
	}
	flush()
	return strings.TrimRight(out.String(), "\n")
}

// letEnd: the position behind the ; that ends the statement at s[at:]
func letEnd(s string, at int) int {
	d := 0
	for i := at; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ';':
			if d == 0 {
				return i + 1
			}
		}
	}
	return len(s)
}

func (p *namePass) run(body string) string {
	var out []string
	type pend struct {
		depth int
		v     scopeVar
	}
	var pending []pend
	lines := strings.Split(body, "\n")
	braces := func(l string) {
		for _, c := range uncomment(l) {
			switch c {
			case '{':
				p.scopes = append(p.scopes, nil)
			case '}':
				if len(p.scopes) > 1 {
					p.scopes = p.scopes[:len(p.scopes)-1]
				}
			}
		}
		for len(pending) > 0 && pending[len(pending)-1].depth >= len(p.scopes) {
			q := pending[len(pending)-1]
			pending = pending[:len(pending)-1]
			p.scopes[len(p.scopes)-1] = append(p.scopes[len(p.scopes)-1], q.v)
		}
	}
	declare := func(v scopeVar) {
		p.scopes[len(p.scopes)-1] = append(p.scopes[len(p.scopes)-1], v)
	}
	for i := 0; i < len(lines); i++ {
		t := strings.TrimSpace(lines[i])
		if f := strings.SplitN(t, " ", 3); f[0] == "//@@off" {
			p.off[f[1]] = f[2]
			continue
		}
		if strings.HasPrefix(t, "//@@at") || strings.HasPrefix(t, "//@@loop") {
			var c []string
			for i++; i < len(lines) && strings.TrimSpace(lines[i]) != markEnd; i++ {
				c = append(c, lines[i])
			}
			s := strings.Join(c, "\n")
			if strings.HasPrefix(t, "//@@loop") {
				out = append(out, p.loop(s))
				continue
			}
			n, ok := p.text(s)
			if !ok {
				p.dropped = append(p.dropped, t)
				continue
			}
			// ghost variables of this place
			d, from := 0, 0
			res := ""
			for k := 0; k < len(n); k++ {
				switch n[k] {
				case '{':
					d++
				case '}':
					d--
				case 'l':
					if d != 0 || k > 0 && n[k-1] != ' ' && n[k-1] != '\n' && n[k-1] != '\t' && n[k-1] != ';' {
						continue
					}
					m := ghostLet.FindStringSubmatchIndex(n[k:])
					if m == nil || m[0] != 0 {
						continue
					}
					name := n[k:][m[4]:m[5]]
					end := letEnd(n, k+m[1])
					if p.hoist[name] {
						if m[6] >= 0 {
							p.hoistType[name] = n[k:][m[6]:m[7]]
						}
						res += n[from:k] + "proof { " + name + " = " + n[k+m[1]:end] + " }"
						from = end
					} else {
						declare(scopeVar{name, "ghost"})
					}
					k = end - 1
				}
			}
			out = append(out, res+n[from:])
			continue
		}
		if m := ghostLine.FindStringSubmatch(lines[i]); m != nil {
			declare(scopeVar{m[2], "ghost"})
		} else if m := letLine.FindStringSubmatch(lines[i]); m != nil {
			v := scopeVar{m[2], strings.TrimPrefix(strings.TrimPrefix(strings.TrimSpace(m[4]), "&mut "), "&")}
			at := len(p.scopes)
			braces(lines[i])
			if len(p.scopes) > at {
				pending = append(pending, pend{at, v})
			} else {
				declare(v)
			}
			out = append(out, lines[i])
			continue
		}
		braces(lines[i])
		out = append(out, lines[i])
	}
	return strings.Join(out, "\n")
}

func letsOf(body string) [][2]string {
	var r [][2]string
	seen := map[string]bool{}
	in := false
	for _, l := range strings.Split(body, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "//@@at") || strings.HasPrefix(t, "//@@loop") {
			in = true
		}
		if t == markEnd {
			in = false
		}
		if in {
			continue
		}
		if m := letLine.FindStringSubmatch(l); m != nil && m[2] != "_" && !seen[m[2]] {
			seen[m[2]] = true
			r = append(r, [2]string{m[2], strings.TrimPrefix(strings.TrimPrefix(strings.TrimSpace(m[4]), "&mut "), "&")})
		}
	}
	return r
}

var lenLine = regexp.MustCompile(`^\s*let (__n\d+): i64 = go_len\(&?([\w.]+)\);`)

func lensOf(body string) map[string]string {
	var r map[string]string
	for _, l := range strings.Split(body, "\n") {
		if m := lenLine.FindStringSubmatch(l); m != nil && !strings.HasPrefix(m[2], "__") {
			if r == nil {
				r = map[string]string{}
			}
			r[m[1]] = m[2] + "@.len()"
		}
	}
	return r
}

var copyLine = regexp.MustCompile(`^\s*let mut (\w+)(: [^=]+?)? = \(?(\w+)\)?;`)

func copiesOf(body string) map[string]string {
	r := map[string]string{}
	for _, l := range strings.Split(body, "\n") {
		if m := copyLine.FindStringSubmatch(l); m != nil {
			r[m[1]] = m[3]
		}
	}
	return r
}

func stripMarks(body string) string {
	var out []string
	for _, l := range strings.Split(body, "\n") {
		if t := strings.TrimSpace(l); !strings.HasPrefix(t, "//@@") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// adapt returns the body with its ghost text adapted, and the renaming of the parameters.
func adapt(body string, now, base *baseFn, fs *FnSpec) (string, map[string]string, []string) {
	pm := map[string]string{}
	params := now.Params
	if base == nil {
		return stripMarks(body), pm, nil
	}
	p := &namePass{base: base, baseTyp: map[string]string{}, ghostAll: map[string]bool{}, global: map[string]string{}, hoist: map[string]bool{}, need: map[string]bool{}, hoistType: map[string]string{}, taken: map[string]string{}, off: map[string]string{}}
	for _, v := range base.Lets {
		p.baseTyp[v[0]] = v[1]
	}
	for i, v := range base.Params {
		p.baseTyp[v[0]] = v[1]
		if len(params) == len(base.Params) && params[i][0] != v[0] && params[i][1] == v[1] {
			pm[v[0]] = params[i][0]
			p.global[v[0]] = params[i][0]
		}
	}
	for _, s := range fs.at {
		for _, m := range ghostLet.FindAllStringSubmatch(s, -1) {
			p.ghostAll[m[2]] = true
		}
	}
	for _, v := range base.Params {
		p.ghostAll[v[0]+"_0"] = false
	}
	delete(p.ghostAll, "")
	p.moved = moved(base, now)
	for o, n := range renamed(base, now) {
		p.global[o] = n
	}
	start := func() {
		p.scopes = [][]scopeVar{nil}
		for _, v := range params {
			p.scopes[0] = append(p.scopes[0], scopeVar{v[0], v[1]})
		}
		for h := range p.hoist {
			p.scopes[0] = append(p.scopes[0], scopeVar{h, "ghost"})
		}
		p.dropped, p.need = nil, map[string]bool{}
	}
	start()
	out := p.run(body)
	if len(p.need) > 0 {
		for n := range p.need {
			p.hoist[n] = true
		}
		start()
		out = p.run(body)
		pre := ""
		for _, l := range strings.Split(body, "\n") {
			if m := ghostLet.FindStringSubmatch(l); m != nil && p.hoist[m[2]] && !strings.Contains(pre, " "+m[2]+p.hoistType[m[2]]+" = ") {
				pre += fmt.Sprintf("  let ghost mut %s%s = arbitrary();\n", m[2], p.hoistType[m[2]])
			}
		}
		// behind the header lines
		ls := strings.Split(out, "\n")
		k := 0
		for k < len(ls) && strings.HasPrefix(strings.TrimSpace(ls[k]), "hide(") {
			k++
		}
		out = strings.Join(append(append(append([]string{}, ls[:k]...), strings.TrimRight(pre, "\n")), ls[k:]...), "\n")
	}
	return stripMarks(out), pm, p.dropped
}

// temporaries of the translation (their numbers depend on everything before them); hidden loop positions are no temporaries
func tempName(n string) bool {
	return strings.HasPrefix(n, "__") && !strings.HasPrefix(n, "__i")
}
