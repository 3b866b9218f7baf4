package main

// Contract files (*.vs).
//
//	@module NAME              following items go into Rust module NAME
//	@raw ... @end             Verus text copied verbatim (spec functions, lemmas, trusted stubs)
//	@ghostfield STRUCT name: Ghost<T> = INIT
//	@iface GOIFACE = STRUCT   the interface is instantiated at one struct
//	@std PKG FN... : IFACE = TYPE   functions of the standard library, read from GOROOT on every run, with the interface
//	                          IFACE instantiated at TYPE; they become PKG_FN
//	@trait GOIFACE ... @end   the interface becomes a Rust trait with these contracts
//	@impl STRUCT GOIFACE ... @end   specification part of the implementation
//	@frame TYPE...            frame mode: every exported method of these types and of the types that hold one (and every
//	                          function they reach) gets a generated contract saying that they are left unchanged
//	@frameskip FN...          except these, which exist to change them
//	@frameroot FN...          further functions to start from
//	@fn [Recv.]Name           contract of a Go function
//	@also [Recv.]Name         further clauses and ghost text for a function that has a contract in an earlier file
//	  @attr TEXT  @wrapping  @trusted REASON  @ret NAME
//	  @pure NAME              the function of plain values is also the (uninterpreted) spec function NAME;
//	                          emitted twice: the real body is verified, callers see r == NAME(args)
//	  @requires ... @ensures ... @decreases ...
//	  @loop N ...             clauses of the Nth loop (source order, after inlining)
//	  @at ANCHOR ...          ghost text at an anchor
//	@end

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Spec struct {
	modules   []string
	raw       map[string][]string
	fns       map[string]*FnSpec
	ghost     map[string][]GhostField
	iface     map[string]string
	std       []string
	traits    map[string]string
	impls     map[string]ImplSpec // key "Struct"
	omit      map[string]bool
	noCopy    map[string]bool
	share     map[string]string // "Fn: source text" -> why the second reference is harmless
	shareUsed map[string]bool
	frame     map[string]bool
	frameSkip map[string]bool
	frameRoot []string
}

type ImplSpec struct{ trait, text, module string }

type GhostField struct{ name, typ, init string }

type FnSpec struct {
	name, module                 string
	attrs                        []string
	wrapping                     bool
	trusted                      string
	pure                         string
	ret                          string
	requires, ensures, decreases string
	loops                        map[int]string
	at                           map[string]string
	atUsed                       map[string]bool
	loopUsed                     map[int]bool
	where                        string
	sigextra                     string
	frameInv                     string // frame mode: the invariant of every loop
	props                        []string
}

func loadSpecs(files []string) (*Spec, error) {
	sp := &Spec{raw: map[string][]string{}, fns: map[string]*FnSpec{}, ghost: map[string][]GhostField{},
		iface: map[string]string{}, traits: map[string]string{}, impls: map[string]ImplSpec{}, omit: map[string]bool{}, noCopy: map[string]bool{}, share: map[string]string{}, shareUsed: map[string]bool{}, frame: map[string]bool{}, frameSkip: map[string]bool{}}
	for _, f := range files {
		if err := sp.load(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Spec) load(file string) error {
	fh, err := os.Open(file)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	mod := strings.TrimSuffix(filepath.Base(file), ".vs")
	addMod := func(m string) {
		for _, x := range sp.modules {
			if x == m {
				return
			}
		}
		sp.modules = append(sp.modules, m)
	}
	addMod(mod)
	var fn *FnSpec
	var block *string // current text block inside a fn
	var rawLines []string
	mode := "" // "", raw, trait, impl
	modeArg := ""
	var loopN int
	var atKey string
	var buf string
	also := false
	flush := func() {
		if fn == nil || block == nil {
			return
		}
		if block == &buf {
			if atKey != "" {
				fn.at[atKey] += buf
			} else if old := fn.loops[loopN]; also && old != "" {
				// further invariants of a loop that has some
				fn.loops[loopN] = strings.Replace(old, "invariant ", strings.TrimRight(strings.TrimSpace(buf), ",")+", ", 1)
			} else {
				fn.loops[loopN] += buf
			}
			buf = ""
		}
		block = nil
	}
	ln := 0
	_ = ln
	for sc.Scan() {
		ln++
		line := sc.Text()
		t := strings.TrimSpace(line)
		if mode != "" {
			if t == "@end" {
				text := strings.Join(rawLines, "\n") + "\n"
				switch mode {
				case "raw":
					sp.raw[mod] = append(sp.raw[mod], text)
				case "trait":
					sp.traits[modeArg] = text
					sp.raw[mod] = append(sp.raw[mod], text)
				case "impl":
					p := strings.Fields(modeArg)
					sp.impls[p[0]] = ImplSpec{p[1], text, mod}
				}
				mode = ""
				rawLines = nil
				continue
			}
			rawLines = append(rawLines, line)
			continue
		}
		if !strings.HasPrefix(t, "@") {
			if block != nil {
				*block += line + "\n"
			} else if t != "" && !strings.HasPrefix(t, "//") && !strings.HasPrefix(t, "#") {
				return fmt.Errorf("%s:%d: text outside a block: %s", file, ln, t)
			}
			continue
		}
		word := strings.Fields(t)[0]
		rest := strings.TrimSpace(t[len(word):])
		switch word {
		case "@module":
			mod = rest
			addMod(mod)
		case "@raw":
			mode = "raw"
		case "@trait":
			mode, modeArg = "trait", rest
		case "@impl":
			mode, modeArg = "impl", rest
		case "@iface":
			p := strings.Split(rest, "=")
			sp.iface[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "@std":
			sp.std = append(sp.std, rest)
		case "@frame":
			for _, x := range strings.Fields(rest) {
				sp.frame[x] = true
			}
		case "@frameskip":
			for _, x := range strings.Fields(rest) {
				sp.frameSkip[x] = true
			}
		case "@frameroot":
			sp.frameRoot = append(sp.frameRoot, strings.Fields(rest)...)
		case "@ghostfield":
			p := strings.SplitN(rest, " ", 2)
			q := strings.SplitN(p[1], ":", 2)
			i := strings.LastIndex(q[1], " = ")
			sp.ghost[p[0]] = append(sp.ghost[p[0]], GhostField{strings.TrimSpace(q[0]), strings.TrimSpace(q[1][:i]), strings.TrimSpace(q[1][i+3:])})
		case "@share":
			p := strings.SplitN(rest, " -- ", 2)
			sp.share[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "@nocopy":
			sp.noCopy[rest] = true
		case "@fn":
			fn = &FnSpec{name: rest, module: mod, ret: "r", loops: map[int]string{}, at: map[string]string{}, atUsed: map[string]bool{}, loopUsed: map[int]bool{}, where: fmt.Sprintf("%s:%d", file, ln)}
			if _, dup := sp.fns[rest]; dup {
				return fmt.Errorf("%s:%d: duplicate contract for %s", file, ln, rest)
			}
			sp.fns[rest] = fn
		case "@also":
			fn = sp.fns[rest]
			if fn == nil {
				return fmt.Errorf("%s:%d: @also for %s, which has no contract", file, ln, rest)
			}
			also = true
		case "@attr":
			fn.attrs = append(fn.attrs, rest)
		case "@wrapping":
			fn.wrapping = true
		case "@pure":
			fn.pure = rest
		case "@trusted":
			fn.trusted = rest
		case "@ret":
			fn.ret = rest
		case "@requires", "@ensures", "@decreases":
			flush()
			switch word {
			case "@requires":
				block = &fn.requires
			case "@ensures":
				block = &fn.ensures
			default:
				block = &fn.decreases
			}
			if also && strings.TrimSpace(*block) != "" {
				*block = strings.TrimRight(strings.TrimSpace(*block), ",") + ",\n"
			}
			if rest != "" {
				*block += "  " + rest + "\n"
			}
		case "@loop":
			flush()
			fmt.Sscanf(rest, "%d", &loopN)
			atKey = ""
			block = &buf
		case "@at":
			flush()
			atKey = strings.Join(strings.Fields(rest), " ")
			block = &buf
		case "@end":
			flush()
			fn, also = nil, false
		default:
			return fmt.Errorf("%s:%d: unknown directive %s", file, ln, word)
		}
	}
	if mode != "" || fn != nil {
		return fmt.Errorf("%s: unterminated block", file)
	}
	return nil
}

func (sp *Spec) fnNames() []string {
	var r []string
	for k := range sp.fns {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
