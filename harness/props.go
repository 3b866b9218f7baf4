package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/deNULL/dawg"
)

var props = map[string]func(c *Case) string{
	"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12,
}

func isUtfc(p string) bool { return p == "C08" || p == "C09" }

func rng(c *Case) *rand.Rand { return rand.New(rand.NewSource(c.Seed ^ 0x5bd1e995)) }

func tick(n int) { atomic.AddInt64(&checksDone, int64(n)) }

func newBuilder(r *rand.Rand) *dawg.DawgBuilder {
	switch r.Intn(4) {
	case 0:
		return dawg.NewDawgBuilderWithSize(1 + r.Intn(8))
	case 1:
		return dawg.NewDawgBuilderWithSize(1 << uint(r.Intn(6)))
	}
	return dawg.NewDawgBuilder()
}

// insertAll inserts a sorted set, now and then twice (the last value counts) and with refused keys in between.
func insertAll(b *dawg.DawgBuilder, kvs []KV, r *rand.Rand, noise bool) string {
	for i, e := range kvs {
		if noise && r.Intn(16) == 0 {
			if !b.InsertStringValue(e.K, r.Int31()) {
				return fmt.Sprintf("insert %q refused", e.K)
			}
		}
		ok := false
		switch r.Intn(3) {
		case 0:
			ok = b.InsertKeyValue([]byte(e.K), len(e.K), e.V)
		case 1:
			ok = b.InsertKeyValue([]byte(e.K+"tail\x00"), len(e.K), e.V)
		default:
			if e.V == 0 {
				ok = b.InsertString(e.K)
			} else {
				ok = b.InsertStringValue(e.K, e.V)
			}
		}
		if !ok {
			return fmt.Sprintf("insert %q (value %d) refused", e.K, e.V)
		}
		if noise && r.Intn(16) == 0 && i > 0 {
			if b.InsertStringValue(kvs[r.Intn(i)].K, 7) {
				return fmt.Sprintf("out of order insert accepted after %q", e.K)
			}
		}
	}
	return ""
}

func makeDawg(kvs []KV, r *rand.Rand, noise bool) (*dawg.Dawg, string) {
	b := newBuilder(r)
	if s := insertAll(b, kvs, r, noise); s != "" {
		return nil, s
	}
	d := dawg.NewDawg()
	b.Finish(d)
	return d, ""
}

func makeDict(kvs []KV, r *rand.Rand, noise bool) (*dawg.Dawg, *dawg.Dictionary, string) {
	d, s := makeDawg(kvs, r, noise)
	if s != "" {
		return nil, nil, s
	}
	if r.Intn(2) == 0 {
		var unused uint32
		dict := d.BuildWithUnused(&unused)
		if dict == nil {
			return nil, nil, "build failed"
		}
		if int(unused) > dict.Size() {
			return nil, nil, "more unused units than units"
		}
		return d, dict, ""
	}
	dict := d.Build()
	if dict == nil {
		return nil, nil, "build failed"
	}
	return d, dict, ""
}

func find(kvs []KV, k string) (int32, bool) {
	i := sort.Search(len(kvs), func(i int) bool { return kvs[i].K >= k })
	if i < len(kvs) && kvs[i].K == k {
		return kvs[i].V, true
	}
	return -1, false
}

// keys below a prefix: [lo, hi)
func below(kvs []KV, p string) (int, int) {
	lo := sort.Search(len(kvs), func(i int) bool { return kvs[i].K >= p })
	hi := lo + sort.Search(len(kvs)-lo, func(i int) bool { return !strings.HasPrefix(kvs[lo+i].K, p) })
	return lo, hi
}

func lookups(dict *dawg.Dictionary, kvs []KV, k string) string {
	tick(1)
	v, ok := find(kvs, k)
	if dict.ContainsString(k) != ok {
		return fmt.Sprintf("ContainsString(%q) = %v", k, !ok)
	}
	if g := dict.FindString(k); g != v {
		return fmt.Sprintf("FindString(%q) = %d, want %d", k, g, v)
	}
	var o int32 = -77
	if g := dict.FindStringValue(k, &o); g != ok || (ok && o != v) {
		return fmt.Sprintf("FindStringValue(%q) = %v %d, want %v %d", k, g, o, ok, v)
	}
	return ""
}

func lookupsLen(dict *dawg.Dictionary, kvs []KV, k, tail string) string {
	tick(1)
	v, ok := find(kvs, k)
	s, n := k+tail, len(k)
	if dict.ContainsStringLen(s, n) != ok {
		return fmt.Sprintf("ContainsStringLen(%q, %d) = %v", s, n, !ok)
	}
	if g := dict.FindStringLen(s, n); g != v {
		return fmt.Sprintf("FindStringLen(%q, %d) = %d, want %d", s, n, g, v)
	}
	var o int32 = -77
	if g := dict.FindStringLenValue(s, n, &o); g != ok || (ok && o != v) {
		return fmt.Sprintf("FindStringLenValue(%q, %d) = %v %d, want %v %d", s, n, g, o, ok, v)
	}
	return ""
}

func sampleKeys(kvs []KV, r *rand.Rand, max int) []KV {
	if len(kvs) <= max {
		return kvs
	}
	out := make([]KV, 0, max)
	out = append(out, kvs[0], kvs[len(kvs)-1])
	for len(out) < max {
		out = append(out, kvs[r.Intn(len(kvs))])
	}
	return out
}

func mutate(k string, r *rand.Rand) string {
	b := []byte(k)
	switch r.Intn(8) {
	case 6, 7:
		i := r.Intn(len(b) + 1)
		x := byte(0)
		if r.Intn(2) == 0 {
			x = byte(r.Intn(256))
		}
		return string(b[:i]) + string([]byte{x}) + string(b[i:])
	case 0:
		return string(append(b, byte(r.Intn(256))))
	case 1:
		if len(b) > 0 {
			return string(b[:r.Intn(len(b))])
		}
	case 2:
		if len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 3:
		if len(b) > 0 {
			i := r.Intn(len(b))
			return string(append(b[:i], b[i+1:]...))
		}
	case 4:
		if len(b) > 0 {
			b[len(b)-1] += byte(r.Intn(3)) - 1
		}
	case 5:
		return string(b) + word(r, []byte{0, 1, 2, 'a', 'b', 128, 255}, 3)
	}
	return string(b)
}

func c01(c *Case) string {
	kvs, r := c.build(), rng(c)
	_, dict, s := makeDict(kvs, r, true)
	if s != "" {
		return s
	}
	// every key of the case
	for _, e := range kvs {
		if s := lookups(dict, kvs, e.K); s != "" {
			return s
		}
	}
	for _, e := range sampleKeys(kvs, r, 3000) {
		if s := lookupsLen(dict, kvs, e.K, "\x00zz"); s != "" {
			return s
		}
		for i := 0; i < 6; i++ {
			m := mutate(e.K, r)
			if s := lookups(dict, kvs, m); s != "" {
				return s
			}
			if s := lookupsLen(dict, kvs, m, e.K); s != "" {
				return s
			}
		}
	}
	// a zero byte anywhere
	for _, e := range sampleKeys(kvs, r, 4000) {
		for i := 0; i <= len(e.K) && i < 40; i++ {
			if s := lookups(dict, kvs, e.K[:i]+"\x00"+e.K[i:]); s != "" {
				return s
			}
		}
	}
	// every key and prefix of it, extended by every byte
	n := 0
	for _, e := range sampleKeys(kvs, r, 60) {
		for i := 0; i <= len(e.K) && n < 400; i++ {
			n++
			for b := 0; b < 256; b++ {
				if s := lookups(dict, kvs, e.K[:i]+string([]byte{byte(b)})); s != "" {
					return s
				}
			}
		}
		n -= 4
	}
	for b := 0; b < 256; b++ {
		if s := lookups(dict, kvs, string([]byte{byte(b)})); s != "" {
			return s
		}
	}
	for i := 0; i < 200; i++ {
		if s := lookups(dict, kvs, word(r, []byte{0, 1, 'a', 'b', 'c', 200, 255}, 6)); s != "" {
			return s
		}
	}
	return lookups(dict, kvs, "")
}

func c02(c *Case) string {
	kvs, r := c.build(), rng(c)
	b := newBuilder(r)
	model := map[string]int32{}
	last, any := "", false
	var tried []string
	n := len(kvs)
	if n > 20000 {
		n = 20000
	}
	step := func(k string, v int32) string {
		tick(1)
		want := v >= 0 && strings.IndexByte(k, 0) < 0 && (!any || k >= last)
		got := false
		desc := ""
		if r.Intn(4) == 0 {
			got = b.InsertKeyValue([]byte(k+"\x00x"), len(k), v)
			desc = fmt.Sprintf("InsertKeyValue(%q, %d, %d)", k+"\x00x", len(k), v)
		} else {
			got = b.InsertStringValue(k, v)
			desc = fmt.Sprintf("InsertStringValue(%q, %d)", k, v)
		}
		if got != want {
			return fmt.Sprintf("%s = %v after %q", desc, got, last)
		}
		tried = append(tried, k)
		if want {
			model[k], last, any = v, k, true
		}
		return ""
	}
	bad := func() string {
		for r.Intn(3) == 0 {
			var k string
			var v int32 = r.Int31n(100)
			switch r.Intn(5) {
			case 0:
				k = mutate(last, r)
			case 1:
				k, v = mutate(last, r), -1-r.Int31n(1<<30)
			case 2:
				k = last[:r.Intn(len(last)+1)] + "\x00" + word(r, []byte("ab\x00"), 2)
			case 3:
				k = last[:r.Intn(len(last)+1)]
			case 4:
				if len(tried) > 0 {
					k = mutate(tried[r.Intn(len(tried))], r)
				}
			}
			if any && k >= last && strings.IndexByte(k, 0) < 0 && v >= 0 && k != last {
				continue // would skip keys of the case
			}
			if s := step(k, v); s != "" {
				return s
			}
		}
		return ""
	}
	for i := 0; i < n; i++ {
		if s := bad(); s != "" {
			return s
		}
		if s := step(kvs[i].K, kvs[i].V); s != "" {
			return s
		}
	}
	if s := bad(); s != "" {
		return s
	}
	d := dawg.NewDawg()
	b.Finish(d)
	dict := d.Build()
	if dict == nil {
		return "build failed"
	}
	for _, k := range tried {
		v, ok := model[k]
		var g int32
		gok := dict.FindStringValue(k, &g)
		if gok != ok || (ok && g != v) {
			return fmt.Sprintf("after the insertions, FindStringValue(%q) = %v %d, want %v %d", k, gok, g, ok, v)
		}
	}
	// nothing else: enumerate
	guide := dawg.BuildGuide(d, dict)
	if guide == nil {
		return "guide failed"
	}
	cp := dawg.NewCompleter(dict, guide)
	cp.Start(dict.Root())
	cnt := 0
	for cp.Next() {
		cnt++
		if v, ok := model[cp.Key()]; !ok || v != cp.Value() || cnt > len(model) {
			return fmt.Sprintf("content after the insertions has %q = %d, want %v %d", cp.Key(), cp.Value(), ok, v)
		}
	}
	if cnt != len(model) {
		return fmt.Sprintf("content after the insertions has %d keys, want %d", cnt, len(model))
	}
	return ""
}

// positions: all (or a sample of the) prefixes of keys
func prefixes(kvs []KV, r *rand.Rand, max int) []string {
	set := map[string]bool{"": true}
	if len(kvs) == 0 {
		return []string{""}
	}
	total := 0
	for _, e := range kvs {
		total += len(e.K)
		if total > max*8 {
			break
		}
	}
	if total <= max*8 {
		for _, e := range kvs {
			for i := 0; i <= len(e.K); i++ {
				set[e.K[:i]] = true
			}
		}
	} else {
		for i := 0; i < max; i++ {
			k := kvs[r.Intn(len(kvs))].K
			set[k[:r.Intn(len(k)+1)]] = true
		}
	}
	out := make([]string, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	if len(out) > max {
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		out = out[:max]
	}
	return out
}

func c03(c *Case) string {
	kvs, r := c.build(), rng(c)
	_, dict, s := makeDict(kvs, r, true)
	if s != "" {
		return s
	}
	node := map[string]uint32{}
	for _, p := range prefixes(kvs, r, 1500) {
		lo, hi := below(kvs, p)
		if p != "" && lo == hi {
			continue
		}
		idx := dict.Root()
		if r.Intn(2) == 0 {
			if !dict.FollowString(p, &idx) {
				return fmt.Sprintf("FollowString(%q) fails", p)
			}
		} else if !dict.FollowStringLen(p+"\x00q", len(p), &idx) {
			return fmt.Sprintf("FollowStringLen(%q) fails", p)
		}
		i2, cnt := dict.Root(), 5
		if !dict.FollowStringCount(p, &i2, &cnt) || cnt != 5+len(p) || i2 != idx {
			return fmt.Sprintf("FollowStringCount(%q): count %d", p, cnt)
		}
		i2, cnt = dict.Root(), 1
		if !dict.FollowStringLenCount(p+"r", len(p), &i2, &cnt) || cnt != 1+len(p) || i2 != idx {
			return fmt.Sprintf("FollowStringLenCount(%q): count %d", p, cnt)
		}
		node[p] = idx
		v, ok := find(kvs, p)
		if dict.HasValue(idx) != ok {
			return fmt.Sprintf("HasValue at %q = %v", p, !ok)
		}
		if ok && dict.Value(idx) != v {
			return fmt.Sprintf("Value at %q = %d, want %d", p, dict.Value(idx), v)
		}
		child := [256]bool{}
		for i := lo; i < hi; {
			if len(kvs[i].K) == len(p) {
				i++
				continue
			}
			b := kvs[i].K[len(p)]
			child[b] = true
			i += sort.Search(hi-i, func(j int) bool { return kvs[i+j].K[len(p)] > b })
		}
		for b := 0; b < 256; b++ {
			tick(1)
			j := idx
			if dict.Follow(byte(b), &j) != child[b] {
				return fmt.Sprintf("Follow(%#x) at %q = %v", b, p, !child[b])
			}
			if !child[b] && j != idx {
				return fmt.Sprintf("failed Follow(%#x) at %q moved", b, p)
			}
			if !child[b] && (b == 0 || r.Intn(32) == 0) {
				// failing in the middle or at the end: counts the steps that succeeded
				cut := r.Intn(len(p) + 1)
				from := dict.Root()
				if !dict.FollowStringLen(p, cut, &from) {
					return fmt.Sprintf("FollowStringLen(%q, %d) fails", p, cut)
				}
				q := p[cut:] + string([]byte{byte(b)}) + []string{"", "x", "\x00", p}[r.Intn(4)]
				n := len(p) - cut + 1 + r.Intn(len(q)-(len(p)-cut))
				at, got := [4]uint32{from, from, from, from}, [2]int{3, 0}
				if dict.FollowString(q, &at[0]) || dict.FollowStringLen(q, n, &at[1]) {
					return fmt.Sprintf("FollowString or FollowStringLen(%q + %q, %d) = true", p[:cut], q, n)
				}
				if dict.FollowStringCount(q, &at[2], &got[0]) || got[0] != 3+len(p)-cut {
					return fmt.Sprintf("FollowStringCount(%q + %q) counted %d", p[:cut], q, got[0]-3)
				}
				if dict.FollowStringLenCount(q, n, &at[3], &got[1]) || got[1] != len(p)-cut {
					return fmt.Sprintf("FollowStringLenCount(%q + %q, %d) counted %d", p[:cut], q, n, got[1])
				}
				for _, a := range at {
					if a != idx {
						return fmt.Sprintf("following %q + %q does not stop at %q", p[:cut], q, p)
					}
				}
			}
		}
	}
	return ""
}

func c04(c *Case) string {
	kvs, r := c.build(), rng(c)
	d, dict, s := makeDict(kvs, r, false)
	if s != "" {
		return s
	}
	guide := dawg.BuildGuide(d, dict)
	if guide == nil {
		return "guide failed"
	}
	cp := dawg.NewCompleter(dict, guide)
	budget := 300000
	ps := prefixes(kvs, r, 400)
	for pi, p := range ps {
		if pi > 3 && budget < 0 {
			break
		}
		lo, hi := below(kvs, p)
		if p != "" && lo == hi {
			continue
		}
		idx := dict.Root()
		if !dict.FollowString(p, &idx) {
			return fmt.Sprintf("FollowString(%q) fails", p)
		}
		text := p
		switch r.Intn(3) {
		case 0:
			cp.Start(idx)
			text = ""
		case 1:
			cp.StartString(idx, p)
		case 2:
			cp.StartStringLen(idx, p+"zz", len(p))
		}
		stopAt := -1
		if r.Intn(8) == 0 {
			stopAt = r.Intn(hi - lo + 1)
		}
		i := lo
		for ; i < hi; i++ {
			if i-lo == stopAt {
				break
			}
			tick(1)
			budget--
			if !cp.Next() {
				return fmt.Sprintf("completing %q ended after %d of %d keys", p, i-lo, hi-lo)
			}
			want := text + kvs[i].K[len(p):]
			if cp.Key() != want || cp.Value() != kvs[i].V || cp.Length() != len(want) {
				return fmt.Sprintf("completing %q: key %d is %q (length %d) = %d, want %q = %d", p, i-lo, cp.Key(), cp.Length(), cp.Value(), want, kvs[i].V)
			}
		}
		if i == hi {
			for k := 0; k < 3; k++ {
				if cp.Next() {
					return fmt.Sprintf("completing %q goes on after the last key: %q", p, cp.Key())
				}
			}
		}
	}
	return ""
}

func c05(c *Case) string {
	kvs, r := c.build(), rng(c)
	d, dict, s := makeDict(kvs, r, false)
	if s != "" {
		return s
	}
	guide := dawg.BuildRankedGuide(d, dict)
	if guide == nil {
		return "guide failed"
	}
	cp := dawg.NewRankedCompleter(dict, guide)
	budget := 200000
	for pi, p := range prefixes(kvs, r, 300) {
		if pi > 2 && budget < 0 {
			break
		}
		lo, hi := below(kvs, p)
		if p != "" && lo == hi {
			continue
		}
		idx := dict.Root()
		if !dict.FollowString(p, &idx) {
			return fmt.Sprintf("FollowString(%q) fails", p)
		}
		text := p
		switch r.Intn(3) {
		case 0:
			cp.Start(idx)
			text = ""
		case 1:
			cp.StartString(idx, p)
		case 2:
			cp.StartStringLen(idx, p+"zz", len(p))
		}
		seen := map[string]bool{}
		prev := int32(1<<31 - 1)
		max := hi - lo
		stop := max
		if r.Intn(6) == 0 || max > 100000 {
			stop = r.Intn(max + 1)
			if stop > 50000 {
				stop = 50000
			}
		}
		for i := 0; i < stop; i++ {
			tick(1)
			budget--
			if !cp.Next() {
				return fmt.Sprintf("ranked completion of %q ended after %d of %d keys", p, i, max)
			}
			k := cp.Key()
			if !strings.HasPrefix(k, text) || cp.Length() != len(k) {
				return fmt.Sprintf("ranked completion of %q: key %q length %d", p, k, cp.Length())
			}
			full := p + k[len(text):]
			v, ok := find(kvs, full)
			if !ok || v != cp.Value() {
				return fmt.Sprintf("ranked completion of %q: %q = %d, want %v %d", p, k, cp.Value(), ok, v)
			}
			if seen[k] {
				return fmt.Sprintf("ranked completion of %q: %q twice", p, k)
			}
			seen[k] = true
			if v > prev {
				return fmt.Sprintf("ranked completion of %q: %q = %d after value %d", p, k, v, prev)
			}
			prev = v
		}
		if stop == max {
			for k := 0; k < 3; k++ {
				if cp.Next() {
					return fmt.Sprintf("ranked completion of %q goes on after the last key: %q", p, cp.Key())
				}
			}
		}
	}
	return ""
}

func c06(c *Case) string {
	kvs, r := c.build(), rng(c)
	d, dict, s := makeDict(kvs, r, false)
	if s != "" {
		return s
	}
	guide := dawg.BuildGuide(d, dict)
	if guide == nil {
		return "guide failed"
	}
	index := dawg.BuildIndex(dict, guide)
	if index == nil {
		return "index failed"
	}
	ix := dawg.NewIndexer(dict, guide, index)
	if int(ix.TotalCount()) != len(kvs) || int(index.TotalCount()) != len(kvs) {
		return fmt.Sprintf("TotalCount = %d, want %d", ix.TotalCount(), len(kvs))
	}
	for i, e := range kvs {
		tick(1)
		if g := ix.StringToIndex(e.K); int(g) != i {
			return fmt.Sprintf("StringToIndex(%q) = %d, want %d", e.K, g, i)
		}
		if g := ix.IndexToString(uint32(i)); g != e.K {
			return fmt.Sprintf("IndexToString(%d) = %q, want %q", i, g, e.K)
		}
		b := ix.IndexToBytes(uint32(i))
		if b == nil || string(b) != e.K {
			return fmt.Sprintf("IndexToBytes(%d) = %q, want %q", i, b, e.K)
		}
	}
	for _, n := range []uint32{uint32(len(kvs)), uint32(len(kvs)) + 1, 1 << 31, 0xfffffffe, 0xffffffff} {
		if b := ix.IndexToBytes(n); b != nil {
			return fmt.Sprintf("IndexToBytes(%d) = %q for %d keys", n, b, len(kvs))
		}
	}
	chk := func(m string) string {
		tick(1)
		if _, ok := find(kvs, m); ok {
			return ""
		}
		if g := ix.StringToIndex(m); g != dawg.NotFound {
			return fmt.Sprintf("StringToIndex(%q) = %d, not a key", m, g)
		}
		return ""
	}
	for _, e := range sampleKeys(kvs, r, 500) {
		for j := 0; j < 4; j++ {
			if s := chk(mutate(e.K, r)); s != "" {
				return s
			}
		}
	}
	for b := 0; b < 256; b++ {
		if s := chk(string([]byte{byte(b)})); s != "" {
			return s
		}
	}
	if s := chk(""); s != "" {
		return s
	}
	for _, p := range prefixes(kvs, r, 40) {
		idx := dict.Root()
		if !dict.FollowString(p, &idx) {
			continue
		}
		lo, hi := below(kvs, p)
		if g := index.ChildCount(idx); int(g) != hi-lo {
			return fmt.Sprintf("ChildCount at %q = %d, want %d", p, g, hi-lo)
		}
		for b := 0; b < 256; b++ {
			if s := chk(p + string([]byte{byte(b)})); s != "" {
				return s
			}
		}
	}
	return ""
}

// streams with faults
type failWriter struct{ left int }

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("full")
	}
	w.left -= len(p)
	return len(p), nil
}

type slowReader struct {
	b   []byte
	n   int
	eof bool // deliver the last bytes together with io.EOF
	err error
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := s.n
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.eof && len(s.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type structure struct {
	name  string
	write func(io.Writer) bool
	size  func() int
	total func() int
	units func() int
	read  func(io.Reader) (structure, bool)
}

func stDict(d *dawg.Dictionary) structure {
	return structure{"dictionary", d.Write, d.FileSize, d.TotalSize, d.Size, func(r io.Reader) (structure, bool) {
		n := dawg.ReadDictionary(r)
		if n == nil {
			return structure{}, false
		}
		return stDict(n), true
	}}
}
func stGuide(d *dawg.Guide) structure {
	return structure{"guide", d.Write, d.FileSize, d.TotalSize, d.Size, func(r io.Reader) (structure, bool) {
		n := dawg.ReadGuide(r)
		if n == nil {
			return structure{}, false
		}
		return stGuide(n), true
	}}
}
func stRanked(d *dawg.RankedGuide) structure {
	return structure{"ranked guide", d.Write, d.FileSize, d.TotalSize, d.Size, func(r io.Reader) (structure, bool) {
		n := dawg.ReadRankedGuide(r)
		if n == nil {
			return structure{}, false
		}
		return stRanked(n), true
	}}
}
func stIndex(d *dawg.Index) structure {
	return structure{"index", d.Write, d.FileSize, d.TotalSize, d.Size, func(r io.Reader) (structure, bool) {
		n := dawg.ReadIndex(r)
		if n == nil {
			return structure{}, false
		}
		return stIndex(n), true
	}}
}

func c07(c *Case) string {
	kvs, r := c.build(), rng(c)
	d, dict, s := makeDict(kvs, r, false)
	if s != "" {
		return s
	}
	guide := dawg.BuildGuide(d, dict)
	ranked := dawg.BuildRankedGuide(d, dict)
	if guide == nil || ranked == nil {
		return "guide failed"
	}
	index := dawg.BuildIndex(dict, guide)
	if index == nil {
		return "index failed"
	}
	var all bytes.Buffer
	cg, cr := dawg.BuildGuide(d, dict), dawg.BuildRankedGuide(d, dict)
	cg.Clear()
	cr.Clear()
	sts := []structure{stDict(dict), stGuide(guide), stRanked(ranked), stIndex(index), stGuide(cg), stRanked(cr), stDict(dawg.NewDictionary()), stIndex(dawg.NewIndex())}
	var raw [][]byte
	for _, st := range sts {
		tick(1)
		var w bytes.Buffer
		if !st.write(&w) {
			return st.name + ": write failed"
		}
		b := w.Bytes()
		if len(b) != st.size() || st.size() != st.total()+4 {
			return fmt.Sprintf("%s: %d bytes written, file size %d, total size %d", st.name, len(b), st.size(), st.total())
		}
		raw = append(raw, b)
		all.Write(b)
		for k := 0; k < 3; k++ {
			var rd io.Reader = bytes.NewReader(b)
			switch k {
			case 1:
				rd = &slowReader{b: b, n: 1 + r.Intn(7)}
				if len(b) > 200000 {
					rd = &slowReader{b: b, n: 1000 + r.Intn(777)}
				}
			case 2:
				rd = &slowReader{b: b, n: 1 + r.Intn(4096), eof: true}
			}
			n, ok := st.read(rd)
			if !ok {
				return fmt.Sprintf("%s: reading back fails (reader %d)", st.name, k)
			}
			var w2 bytes.Buffer
			if !n.write(&w2) || !bytes.Equal(w2.Bytes(), b) || n.size() != st.size() || n.units() != st.units() {
				return st.name + ": read back differs"
			}
		}
		cuts := 40
		for i := 0; i < cuts; i++ {
			n := r.Intn(len(b))
			if i < 9 && i < len(b) {
				n = i
			} else if i >= 9 && i < 18 && len(b)-(i-8) >= 0 {
				n = len(b) - (i - 8)
			}
			if _, ok := st.read(bytes.NewReader(b[:n])); ok {
				return fmt.Sprintf("%s: reading %d of %d bytes succeeds", st.name, n, len(b))
			}
			if _, ok := st.read(&slowReader{b: b[:n], n: 1 + r.Intn(100), err: errors.New("broken")}); ok {
				return fmt.Sprintf("%s: reading a stream that breaks after %d of %d bytes succeeds", st.name, n, len(b))
			}
			if st.write(&failWriter{n}) {
				return fmt.Sprintf("%s: writing to a stream that fails after %d of %d bytes succeeds", st.name, n, len(b))
			}
		}
		if !st.write(&failWriter{len(b)}) {
			return st.name + ": write failed"
		}
	}
	// one after the other in one stream
	rd := bytes.NewReader(all.Bytes())
	for i, st := range sts {
		n, ok := st.read(rd)
		if !ok {
			return st.name + ": reading from a common stream fails"
		}
		var w bytes.Buffer
		if !n.write(&w) || !bytes.Equal(w.Bytes(), raw[i]) {
			return st.name + ": reading from a common stream gives something else"
		}
	}
	if rd.Len() != 0 {
		return "reading leaves bytes in the stream"
	}
	// reading into an object that already holds something else
	other, _ := makeDawg([]KV{{"x", 1}, {"xy", 2}}, r, false)
	d2 := other.Build()
	g2 := dawg.BuildGuide(other, d2)
	if !d2.Read(bytes.NewReader(raw[0])) || !g2.Read(bytes.NewReader(raw[1])) {
		return "reading into used objects fails"
	}
	for _, e := range sampleKeys(kvs, r, 300) {
		if s := lookups(d2, kvs, e.K); s != "" {
			return "after reading: " + s
		}
	}
	cp := dawg.NewCompleter(d2, g2)
	cp.Start(d2.Root())
	for i := 0; i < len(kvs) && i < 300; i++ {
		if !cp.Next() || cp.Key() != kvs[i].K || cp.Value() != kvs[i].V {
			return fmt.Sprintf("after reading: completion %d differs", i)
		}
	}
	return ""
}

func c10(c *Case) string {
	kvs, r := c.build(), rng(c)
	if len(kvs) > 60000 {
		kvs = kvs[:60000]
	}
	b := newBuilder(r)
	type round struct {
		kvs  []KV
		dict *dawg.Dictionary
		d    *dawg.Dawg
	}
	var rs []round
	target := dawg.NewDawg()
	n := 2 + r.Intn(3)
	for k := 0; k < n; k++ {
		set := kvs
		switch r.Intn(4) {
		case 0:
			set = nil
		case 1:
			if len(kvs) > 0 {
				set = kvs[r.Intn(len(kvs)):]
			}
		case 2:
			set = gens["tiny"](r)
		}
		if s := insertAll(b, set, r, true); s != "" {
			return fmt.Sprintf("round %d: %s", k, s)
		}
		d := dawg.NewDawg()
		if r.Intn(3) == 0 {
			d = target
			if r.Intn(2) == 0 {
				d.Clear()
			}
			for i := range rs {
				if rs[i].d == d {
					rs[i].d = nil
				}
			}
		}
		b.Finish(d)
		dict := d.Build()
		if dict == nil {
			return fmt.Sprintf("round %d: build failed", k)
		}
		fresh, s := makeDawg(set, r, false)
		if s != "" {
			return s
		}
		if fresh.NumOfStates() != d.NumOfStates() || fresh.NumOfTransitions() != d.NumOfTransitions() || fresh.NumOfMergedStates() != d.NumOfMergedStates() ||
			fresh.NumOfMergedTransitions() != d.NumOfMergedTransitions() || fresh.NumOfMergingStates() != d.NumOfMergingStates() || fresh.Size() != d.Size() {
			return fmt.Sprintf("round %d: statistics differ from those of a new builder", k)
		}
		var w1, w2 bytes.Buffer
		dict.Write(&w1)
		fresh.Build().Write(&w2)
		if !bytes.Equal(w1.Bytes(), w2.Bytes()) {
			// layout may legitimately depend on the hash table size; contents may not
			for _, e := range set {
				if s := lookups(dict, set, e.K); s != "" {
					return fmt.Sprintf("round %d: %s", k, s)
				}
			}
		}
		rs = append(rs, round{set, dict, d})
		for j, q := range rs {
			for _, e := range sampleKeys(q.kvs, r, 400) {
				tick(1)
				if s := lookups(q.dict, q.kvs, e.K); s != "" {
					return fmt.Sprintf("round %d after round %d: %s", j, k, s)
				}
			}
			for i := 0; i < 100; i++ {
				if len(kvs) > 0 {
					if s := lookups(q.dict, q.kvs, mutate(kvs[r.Intn(len(kvs))].K, r)); s != "" {
						return fmt.Sprintf("round %d after round %d: %s", j, k, s)
					}
				}
			}
		}
	}
	// the automata of earlier rounds still build the same
	for j, q := range rs {
		if q.d == nil {
			continue
		}
		dict := q.d.Build()
		if dict == nil {
			return fmt.Sprintf("round %d: building again failed", j)
		}
		for _, e := range sampleKeys(q.kvs, r, 400) {
			if s := lookups(dict, q.kvs, e.K); s != "" {
				return fmt.Sprintf("round %d built again: %s", j, s)
			}
		}
	}
	return ""
}

func c11(c *Case) string {
	kvs, r := c.build(), rng(c)
	d, s := makeDawg(kvs, r, false)
	if s != "" {
		return s
	}
	ids := map[string]int{}
	count := map[int]int{}
	trans, total := 0, 0
	var group func(lo, hi, depth int) int
	group = func(lo, hi, depth int) int {
		var sb strings.Builder
		n := 0
		for i := lo; i < hi; {
			n++
			if len(kvs[i].K) == depth {
				fmt.Fprintf(&sb, "$%d;", kvs[i].V)
				i++
				continue
			}
			b := kvs[i].K[depth]
			j := i + sort.Search(hi-i, func(j int) bool { return kvs[i+j].K[depth] > b })
			fmt.Fprintf(&sb, "%d:%d;", b, group(i, j, depth+1))
			i = j
		}
		total += n
		id, ok := ids[sb.String()]
		if !ok {
			id = len(ids)
			ids[sb.String()] = id
			trans += n
		}
		count[id]++
		return id
	}
	if len(kvs) > 0 {
		group(0, len(kvs), 0)
	}
	merging := 0
	for _, n := range count {
		if n > 1 {
			merging++
		}
	}
	tick(5)
	got := []int{d.NumOfStates(), d.NumOfTransitions(), d.NumOfMergedTransitions(), d.NumOfMergedStates(), d.NumOfMergingStates(), d.Size()}
	want := []int{1 + len(ids), trans, total - trans, total - len(ids), merging, trans + 1}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("states, transitions, merged transitions, merged states, merging states, size: %v, want %v", got, want)
		}
	}
	return ""
}

// everyQuery calls the remaining methods that only read.
func everyQuery(dict *dawg.Dictionary, guide *dawg.Guide, ranked *dawg.RankedGuide, index *dawg.Index, ix *dawg.Indexer, kvs []KV, k string) string {
	var at [4]uint32
	var n [2]int
	ok := [4]bool{dict.FollowString(k, &at[0]), dict.FollowStringLen(k, len(k), &at[1]), dict.FollowStringCount(k, &at[2], &n[0]), dict.FollowStringLenCount(k, len(k), &at[3], &n[1])}
	for i := range ok {
		if ok[i] != ok[0] || at[i] != at[0] || n[0] != n[1] {
			return fmt.Sprintf("following %q in four ways: %v %v %v", k, ok, at, n)
		}
	}
	if ok[0] {
		v, is := find(kvs, k)
		if dict.HasValue(at[0]) != is || (is && dict.Value(at[0]) != v) {
			return fmt.Sprintf("value at %q", k)
		}
		if index.Size() > 0 && len(kvs) > 0 {
			lo, hi := below(kvs, k)
			if int(index.ChildCount(at[0])) != hi-lo {
				return fmt.Sprintf("ChildCount at %q", k)
			}
		}
		if guide.Size() > 0 {
			guide.Child(at[0])
			guide.Sibling(at[0])
		}
		if ranked.Size() > 0 {
			ranked.Child(at[0])
			ranked.Sibling(at[0])
		}
	}
	sizes := []int{dict.Size(), dict.TotalSize(), dict.FileSize(), guide.Size(), guide.TotalSize(), guide.FileSize(), ranked.Size(), ranked.TotalSize(), ranked.FileSize(), index.Size(), index.TotalSize(), index.FileSize(), int(guide.Root() + ranked.Root() + index.Root() + dict.Root())}
	for _, x := range sizes {
		if x < 0 {
			return "negative size"
		}
	}
	if len(kvs) > 0 && (int(ix.TotalCount()) != len(kvs) || int(index.TotalCount()) != len(kvs)) {
		return "TotalCount"
	}
	ix.BytesToIndex([]byte(k))
	if ix.IndexToBytes(uint32(len(kvs))) != nil && len(kvs) > 0 {
		return "a key beyond the last"
	}
	return ""
}

func c12(c *Case) string {
	kvs, r := c.build(), rng(c)
	d, dict, s := makeDict(kvs, r, false)
	if s != "" {
		return s
	}
	guide := dawg.BuildGuide(d, dict)
	ranked := dawg.BuildRankedGuide(d, dict)
	if guide == nil || ranked == nil {
		return "guide failed"
	}
	index := dawg.BuildIndex(dict, guide)
	shared := dawg.NewIndexer(dict, guide, index)
	snap := func() string {
		var w bytes.Buffer
		dict.Write(&w)
		guide.Write(&w)
		ranked.Write(&w)
		index.Write(&w)
		return fmt.Sprintf("%x %x", fnv64(w.Bytes()), deepHash(dict, guide, ranked, index, shared))
	}
	before := snap()
	ps := prefixes(kvs, r, 20)
	work := func(seed int64) string {
		r := rand.New(rand.NewSource(seed))
		c1, c2 := dawg.NewCompleter(dict, guide), dawg.NewRankedCompleter(dict, ranked)
		c3 := dawg.NewCompleter(dict, guide)
		ix := dawg.NewIndexer(dict, guide, index)
		if r.Intn(2) == 0 {
			ix = shared
		}
		var heldBytes []byte
		heldKey := ""
		for round := 0; round < 4; round++ {
			p, p3 := ps[r.Intn(len(ps))], ps[r.Intn(len(ps))]
			i1, i3 := dict.Root(), dict.Root()
			lo, hi := below(kvs, p)
			lo3, hi3 := below(kvs, p3)
			if !dict.FollowString(p, &i1) || !dict.FollowString(p3, &i3) {
				return fmt.Sprintf("FollowString(%q) or (%q) fails", p, p3)
			}
			c1.StartString(i1, p)
			c3.StartString(i3, p3)
			c2.StartString(i1, p)
			prev := int32(1<<31 - 1)
			for n := 0; n < 60; n++ {
				tick(1)
				if g := c1.Next(); g != (lo+n < hi) || (g && (c1.Key() != kvs[lo+n].K || c1.Value() != kvs[lo+n].V)) {
					return fmt.Sprintf("interleaved completion of %q differs at %d", p, n)
				}
				if g := c2.Next(); g != (lo+n < hi) {
					return fmt.Sprintf("interleaved ranked completion of %q differs at %d", p, n)
				} else if g {
					if v, ok := find(kvs, c2.Key()); !ok || v != c2.Value() || v > prev {
						return fmt.Sprintf("interleaved ranked completion of %q: %q", p, c2.Key())
					}
					prev = c2.Value()
				}
				if g := c3.Next(); g != (lo3+n < hi3) || (g && (c3.Key() != kvs[lo3+n].K || c3.Value() != kvs[lo3+n].V)) {
					return fmt.Sprintf("interleaved completion of %q differs at %d", p3, n)
				}
				if len(kvs) > 0 {
					i := r.Intn(len(kvs))
					if s := lookups(dict, kvs, kvs[i].K); s != "" {
						return s
					}
					if ix.IndexToString(uint32(i)) != kvs[i].K || int(ix.StringToIndex(kvs[i].K)) != i {
						return fmt.Sprintf("interleaved index query %d differs", i)
					}
					if heldBytes != nil && string(heldBytes) != heldKey {
						return fmt.Sprintf("an index query changes an earlier answer: %q, was %q", heldBytes, heldKey)
					}
					heldBytes, heldKey = ix.IndexToBytes(uint32(i)), kvs[i].K
					if s := lookups(dict, kvs, mutate(kvs[i].K, r)); s != "" {
						return s
					}
					if s := lookupsLen(dict, kvs, mutate(kvs[i].K, r), p); s != "" {
						return s
					}
					if s := lookupsLen(dict, kvs, kvs[i].K, p3); s != "" {
						return s
					}
				}
				if s := everyQuery(dict, guide, ranked, index, ix, kvs, mutate(p, r)); s != "" {
					return s
				}
				if lo+n >= hi && lo3+n >= hi3 {
					break
				}
			}
		}
		return ""
	}
	if s := work(c.Seed); s != "" {
		return s
	}
	if snap() != before {
		return "queries changed a structure"
	}
	var wg sync.WaitGroup
	res := make([]string, 4)
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					res[i] = fmt.Sprint("panic: ", x)
				}
			}()
			res[i] = work(c.Seed + int64(i))
		}(i)
	}
	wg.Wait()
	for _, s := range res {
		if s != "" {
			return "concurrent readers: " + s
		}
	}
	if snap() != before {
		return "concurrent queries changed a structure"
	}
	return ""
}
