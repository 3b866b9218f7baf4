package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/deNULL/dawg"
)

var utfcSchedule = []struct {
	gen string
	n   int
}{
	{"u_edge", 3000}, {"u_mix", 400}, {"u_text", 100}, {"u_bytes", 200}, {"u_run", 200}, {"u_all", 6},
}

func edgeRunes() []rune {
	base := []rune{0, 1, 0x20, 0x21, 0x2d, 0x2e, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x60, 0x61, 0x7a, 0x7b, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x17f, 0x180,
		0x2fe, 0x2ff, 0x300, 0x37f, 0x380, 0x390, 0x391, 0x3d0, 0x3d1, 0x400, 0x40f, 0x410, 0x44f, 0x450, 0x47f, 0x480, 0x500, 0x530, 0x531, 0x570, 0x580, 0x5be, 0x5fd, 0x600, 0x60b, 0x64a,
		0x700, 0x800, 0x900, 0x90d, 0x94c, 0x980, 0xa00, 0xa02, 0xa80, 0xb00, 0xb80, 0xc80, 0xd00, 0xd80, 0xe00, 0xe01, 0xe40, 0xe80, 0xf00, 0xf40, 0xf80, 0xf90, 0xfff, 0x1000, 0x1080, 0x10b0, 0x10ef, 0x1100,
		0x1e00, 0x1f00, 0x1fff, 0x2000, 0x2001, 0x20ff, 0x2100, 0x2500, 0x25ff, 0x2600, 0x2601, 0x26ff, 0x2700, 0x27ff, 0x2800, 0x2fff, 0x3000, 0x303f, 0x3040, 0x307f, 0x3080, 0x30ff, 0x3100, 0x3400, 0x4e00, 0x5000,
		0xa5ff, 0xa600, 0xa601, 0xa700, 0xacff, 0xad00, 0xd7ff, 0xe000, 0xfdff, 0xfe00, 0xfe0f, 0xfe10, 0xffff, 0x10000, 0x125ff, 0x12600, 0x12601, 0x126ff, 0x12700, 0x1a5ff, 0x1a600, 0x1a700, 0x1f2ff, 0x1f300, 0x1f3ff, 0x1f400, 0x1f5ef, 0x1f5f0,
		0x1f600, 0x1f6ff, 0x20000, 0x22600, 0x225ff, 0x22cd8, 0x2a600, 0x2f800, 0xe0000, 0xe0001, 0xf0000, 0xfffff, 0x100000, 0x1025ff, 0x102600, 0x102601, 0x102700, 0x10a600, 0x10ffff, 0x10fffe, 0x10ff00}
	return base
}

var edges = edgeRunes()

func edgeRune(r *rand.Rand) rune {
	c := edges[r.Intn(len(edges))]
	switch r.Intn(6) {
	case 0:
		c += rune(r.Intn(3)) - 1
	case 1:
		c = c&^0xff | rune(r.Intn(256))
	case 2:
		c = 0x2600 + (c-0x2600)&^0x7fff + rune(r.Intn(0x8000))
	case 3:
		c = 0x2600 + (c-0x2600)&^0xff
	}
	if c < 0 || c > 0x10ffff || (c >= 0xd800 && c < 0xe000) {
		return 0x2600
	}
	return c
}

func init() {
	one := func(f func(r *rand.Rand) string) func(r *rand.Rand) []KV {
		return func(r *rand.Rand) []KV { return []KV{{f(r), 0}, {f(r), 0}} }
	}
	gens["u_edge"] = one(func(r *rand.Rand) string {
		var s []rune
		for n := 1 + r.Intn(7); n > 0; n-- {
			s = append(s, edgeRune(r))
		}
		return string(s)
	})
	gens["u_mix"] = one(func(r *rand.Rand) string {
		var s []rune
		for n := r.Intn(120); n > 0; n-- {
			if r.Intn(3) > 0 || len(s) == 0 {
				s = append(s, edgeRune(r))
			} else {
				c := s[len(s)-1]&^0x7f | rune(r.Intn(128))
				if utf8.ValidRune(c) {
					s = append(s, c)
				}
			}
		}
		return string(s)
	})
	gens["u_text"] = one(func(r *rand.Rand) string {
		parts := []string{"Hello, World 42-x", "Привет, мир", "Ελλάδα", "こんにちは カタカナ", "漢字かな交じり文", "שלום", "🙂🙃🎉☀", "ไทย", "é à ü ß", "\u00a0\u2013 \u201cq\u201d", "\U0001F300\uFE0F", "\U00022600\U00022CD8"}
		var sb strings.Builder
		for n := 1 + r.Intn(8); n > 0; n-- {
			sb.WriteString(parts[r.Intn(len(parts))])
		}
		return sb.String()
	})
	gens["u_bytes"] = one(func(r *rand.Rand) string {
		b := make([]byte, r.Intn(30))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	})
	gens["u_run"] = one(func(r *rand.Rand) string {
		var s []rune
		for n := r.Intn(3); n > 0; n-- {
			s = append(s, edgeRune(r))
		}
		c := edgeRune(r)
		for i := 0; i < 300; i++ {
			if utf8.ValidRune(c) {
				s = append(s, c)
			}
			c++
		}
		return string(s)
	})
	// every code point (a sixteenth of them) after a random state
	gens["u_all"] = func(r *rand.Rand) []KV {
		var out []KV
		pre := string([]rune{edgeRune(r), edgeRune(r)})
		lo := rune(r.Intn(17)) << 16
		for c := lo; c < lo+0x10000; c++ {
			if utf8.ValidRune(c) {
				out = append(out, KV{pre + string(c) + "a", 0})
			}
		}
		return out
	}
}

func valid(s string) bool { return utf8.ValidString(s) }

func rt(s string) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("UtfcDecode(UtfcEncode(%+q)) panics: %v", s, x)
		}
	}()
	tick(1)
	e := dawg.UtfcEncode(s)
	if bytes.IndexByte(e, 0) >= 0 {
		return fmt.Sprintf("UtfcEncode(%+q) = %x has a zero byte", s, e)
	}
	if valid(s) {
		if d := dawg.UtfcDecode(e); d != s {
			return fmt.Sprintf("UtfcDecode(UtfcEncode(%+q)) = %+q (encoding %x)", s, d, e)
		}
	}
	return ""
}

func c08(c *Case) string {
	for _, e := range c.build() {
		if m := rt(e.K); m != "" {
			// fewer runes
			rs := []rune(e.K)
			for i := 0; i < len(rs); {
				t := append(append([]rune{}, rs[:i]...), rs[i+1:]...)
				if m2 := rt(string(t)); m2 != "" {
					rs, m = t, m2
				} else {
					i++
				}
			}
			return m
		}
	}
	return ""
}

type follower struct {
	got    []byte
	refuse int
	over   bool
	done   bool
}

func (f *follower) Follow(b byte) bool {
	if f.done {
		f.over = true
	}
	f.got = append(f.got, b)
	if len(f.got)-1 == f.refuse {
		f.done = true
		return false
	}
	return true
}

func c09(c *Case) string {
	r := rng(c)
	kvs := c.build()
	if len(kvs) > 2000 {
		o := r.Intn(len(kvs) - 1000)
		kvs = kvs[o : o+1000]
	}
	var prev []byte
	var prevCopy []byte
	prevS := ""
	for _, e := range kvs {
		s := e.K
		want := dawg.UtfcEncode(s)
		keep := append([]byte{}, want...)
		if prev != nil && !bytes.Equal(prev, prevCopy) {
			return fmt.Sprintf("UtfcEncode(%+q) changed the earlier result for %+q: %x, was %x", s, prevS, prev, prevCopy)
		}
		f := &follower{refuse: -1}
		if !dawg.UtfcFollow(s, f) || !bytes.Equal(f.got, keep) {
			return fmt.Sprintf("UtfcFollow(%+q) offers %x, encoding is %x", s, f.got, keep)
		}
		// step by step
		st := dawg.NewUtfcState()
		var st2 *dawg.UtfcState
		f = &follower{refuse: -1}
		half := len([]rune(s)) / 2
		k := 0
		var f2 *follower
		for _, ch := range s {
			if k == half {
				st2 = dawg.NewUtfcState()
				st2.Follow(0x4e00, &follower{refuse: -1})
				st2.Copy(st)
				f2 = &follower{refuse: -1, got: append([]byte{}, f.got...)}
			}
			if !st.Follow(ch, f) || (st2 != nil && !st2.Follow(ch, f2)) {
				return fmt.Sprintf("UtfcState.Follow(%+q) in %+q fails", ch, s)
			}
			k++
		}
		if !bytes.Equal(f.got, keep) || (f2 != nil && !bytes.Equal(f2.got, keep)) {
			return fmt.Sprintf("UtfcState.Follow over %+q offers %x, encoding is %x", s, f.got, keep)
		}
		st.Clear()
		f = &follower{refuse: -1}
		for _, ch := range s {
			st.Follow(ch, f)
		}
		if !bytes.Equal(f.got, keep) {
			return fmt.Sprintf("UtfcState.Follow over %+q after Clear offers %x, encoding is %x", s, f.got, keep)
		}
		n := len(keep)
		for i := 0; i < n; i++ {
			if n > 40 && r.Intn(n) > 40 {
				continue
			}
			tick(1)
			f := &follower{refuse: i}
			if dawg.UtfcFollow(s, f) {
				return fmt.Sprintf("UtfcFollow(%+q) is true although byte %d was refused", s, i)
			}
			if f.over {
				return fmt.Sprintf("UtfcFollow(%+q) goes on after byte %d was refused", s, i)
			}
			if !bytes.Equal(f.got, keep[:i+1]) {
				return fmt.Sprintf("UtfcFollow(%+q), byte %d refused: offered %x, encoding is %x", s, i, f.got, keep)
			}
			if r.Intn(4) == 0 {
				if g := dawg.UtfcEncode(s); !bytes.Equal(g, keep) {
					return fmt.Sprintf("UtfcEncode(%+q) = %x after an aborted stream, was %x", s, g, keep)
				}
			}
		}
		if g := dawg.UtfcEncode(s); !bytes.Equal(g, keep) || !bytes.Equal(want, keep) {
			return fmt.Sprintf("UtfcEncode(%+q) = %x, was %x", s, g, keep)
		}
		if valid(s) {
			dawg.UtfcDecode(want)
			if !bytes.Equal(want, keep) {
				return fmt.Sprintf("UtfcDecode changed its input for %+q", s)
			}
		}
		prev, prevCopy, prevS = want, keep, s
	}
	return ""
}
