package main

// Generators of key/value sets. Every case is determined by (generator, seed).

import (
	"bufio"
	"math/rand"
	"os"
	"sort"
)

type KV struct {
	K string
	V int32
}

type Case struct {
	Gen  string   `json:"gen"`
	Seed int64    `json:"seed"`
	KVs  []KV     `json:"-"`
	Keys []string `json:"keys,omitempty"` // explicit (shrunk) keys, hex
	Vals []int32  `json:"vals,omitempty"`
}

func alphabet(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return []byte("ab")
	case 1:
		return []byte("abc")
	case 2:
		return []byte("abcdefghijklmnopqrstuvwxyz")
	case 3:
		return []byte{1, 255}
	case 4:
		return []byte{1, 2, 127, 128, 254, 255}
	case 5:
		b := make([]byte, 255)
		for i := range b {
			b[i] = byte(i + 1)
		}
		return b
	case 6:
		b := make([]byte, 2+r.Intn(20))
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
		}
		return b
	}
	return []byte("abcde")
}

func word(r *rand.Rand, al []byte, max int) string {
	n := r.Intn(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	return string(b)
}

var specials = []int32{0, 1, 2, 3, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x3ff, 0x400, 0xffff, 1 << 21, 1<<21 - 1, 1<<29 - 1, 1 << 29, 1<<30 - 1, 1 << 30, 1<<31 - 1, 1<<31 - 2}

func valuer(r *rand.Rand) func(i int, k string) int32 {
	switch r.Intn(9) {
	case 0:
		return func(i int, k string) int32 { return 0 }
	case 1:
		return func(i int, k string) int32 { return int32(i) }
	case 2:
		return func(i int, k string) int32 { return int32(r.Intn(3)) }
	case 3:
		return func(i int, k string) int32 { return specials[r.Intn(len(specials))] }
	case 4:
		return func(i int, k string) int32 { return r.Int31() }
	case 5:
		return func(i int, k string) int32 { return int32(1<<31 - 1 - i) }
	case 6:
		return func(i int, k string) int32 { return int32(len(k)) }
	case 7:
		return func(i int, k string) int32 { return int32(r.Intn(512)) }
	}
	return func(i int, k string) int32 { return int32(r.Intn(50)) }
}

func finish(r *rand.Rand, set map[string]bool) []KV {
	keys := make([]string, 0, len(set))
	for k := range set {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	v := valuer(r)
	out := make([]KV, len(keys))
	for i, k := range keys {
		out[i] = KV{k, v(i, k)}
	}
	return out
}

func (c *Case) build() []KV {
	if c.KVs != nil {
		return c.KVs
	}
	if c.Keys != nil {
		for i := range c.Keys {
			c.KVs = append(c.KVs, KV{unhex(c.Keys[i]), c.Vals[i]})
		}
		return c.KVs
	}
	c.KVs = gens[c.Gen](rand.New(rand.NewSource(c.Seed)))
	if c.KVs == nil {
		c.KVs = []KV{}
	}
	return c.KVs
}

var gens = map[string]func(r *rand.Rand) []KV{
	"empty": func(r *rand.Rand) []KV { return nil },
	"tiny": func(r *rand.Rand) []KV {
		al := alphabet(r)
		if len(al) > 4 {
			al = al[:4]
		}
		set := map[string]bool{}
		for n := r.Intn(8); n > 0; n-- {
			set[word(r, al, 4)] = true
		}
		if r.Intn(4) == 0 {
			set[""] = true
		}
		return finish(r, set)
	},
	"small": func(r *rand.Rand) []KV {
		al := alphabet(r)
		set := map[string]bool{}
		for n := r.Intn(80); n > 0; n-- {
			set[word(r, al, 1+r.Intn(8))] = true
		}
		return finish(r, set)
	},
	// prefixes times suffixes: shared tails
	"merge": func(r *rand.Rand) []KV {
		al := alphabet(r)
		set := map[string]bool{}
		var suf, pre []string
		for n := 1 + r.Intn(6); n > 0; n-- {
			suf = append(suf, word(r, al, 4))
		}
		for n := 1 + r.Intn(60); n > 0; n-- {
			pre = append(pre, word(r, al, 3))
		}
		for _, p := range pre {
			for _, s := range suf {
				if r.Intn(8) != 0 {
					set[p+s] = true
				}
			}
		}
		return finish(r, set)
	},
	// wide nodes: many children
	"wide": func(r *rand.Rand) []KV {
		set := map[string]bool{}
		for n := 1 + r.Intn(6); n > 0; n-- {
			p := word(r, []byte("abcd"), 2)
			skip := r.Intn(4)
			for b := 1; b < 256; b++ {
				if skip != 0 && r.Intn(20) == 0 {
					continue
				}
				set[p+string([]byte{byte(b)})] = true
				if r.Intn(10) == 0 {
					set[p+string([]byte{byte(b)})+word(r, []byte{1, 2, 254, 255}, 3)] = true
				}
			}
			if r.Intn(2) == 0 {
				set[p] = true
			}
		}
		return finish(r, set)
	},
	"medium": func(r *rand.Rand) []KV {
		al := alphabet(r)
		set := map[string]bool{}
		m := 2 + r.Intn(10)
		for n := 200 + r.Intn(3000); n > 0; n-- {
			set[word(r, al, m)] = true
		}
		return finish(r, set)
	},
	// more than 16 blocks, with tails shared over a distance
	"blocks": func(r *rand.Rand) []KV {
		al := alphabet(r)
		var suf []string
		for n := 1 + r.Intn(40); n > 0; n-- {
			suf = append(suf, word(r, al, 5))
		}
		set := map[string]bool{}
		m := 3 + r.Intn(5)
		for n := 2000 + r.Intn(8000); n > 0; n-- {
			set[word(r, al, m)+suf[r.Intn(len(suf))]] = true
		}
		return finish(r, set)
	},
	"dense2": func(r *rand.Rand) []KV {
		set := map[string]bool{}
		for a := 1; a < 256; a++ {
			for b := 1; b < 256; b++ {
				if r.Intn(50) != 0 {
					set[string([]byte{byte(a), byte(b)})] = true
				}
			}
		}
		return finish(r, set)
	},
	"long": func(r *rand.Rand) []KV {
		set := map[string]bool{}
		al := alphabet(r)
		base := word(r, al, 3000)
		for n := 1 + r.Intn(12); n > 0; n-- {
			i := 0
			if len(base) > 0 {
				i = r.Intn(len(base))
			}
			set[base[:i]+word(r, al, 400)] = true
		}
		set[base] = true
		return finish(r, set)
	},
	// wide nodes with few distinct tails: blocks stay partly empty
	"sparse2": func(r *rand.Rand) []KV {
		set := map[string]bool{}
		density := 2 + r.Intn(3)
		tails := []string{""}
		if r.Intn(2) == 0 {
			tails = append(tails, word(r, []byte{1, 2, 128, 255}, 2))
		}
		pre := word(r, []byte("ab"), 1)
		for a := 1; a < 256; a++ {
			if r.Intn(4) == 0 {
				continue
			}
			for b := 1; b < 256; b++ {
				if r.Intn(density) == 0 {
					set[pre+string([]byte{byte(a), byte(b)})+tails[r.Intn(len(tails))]] = true
				}
			}
		}
		kvs := finish(r, set)
		v := r.Int31n(3)
		for i := range kvs {
			kvs[i].V = v
		}
		return kvs
	},
	// each key extends an earlier one, by a little or by a lot
	"ladder": func(r *rand.Rand) []KV {
		set := map[string]bool{}
		al := alphabet(r)
		k := ""
		for n := 1 + r.Intn(12); n > 0; n-- {
			m := 1 + r.Intn(4)
			if r.Intn(3) == 0 {
				m = 1 + r.Intn(400)
			}
			k += word(r, al, m)
			set[k] = true
			if r.Intn(3) == 0 {
				set[k+word(r, al, m)] = true
			}
			if r.Intn(3) == 0 {
				k = k[:r.Intn(len(k)+1)]
			}
		}
		return finish(r, set)
	},
	// the repository's own word list, a random part of it
	"words": func(r *rand.Rand) []KV {
		f, err := os.Open(repoDir + "/test/lexicon.txt")
		if err != nil {
			return nil
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		set := map[string]bool{}
		q := r.Intn(4)
		for sc.Scan() {
			if k := sc.Text(); k != "" && (q == 0 || r.Intn(1<<uint(q)) == 0) {
				set[k] = true
			}
			if len(set) > 20000 {
				break
			}
		}
		return finish(r, set)
	},
	"large": func(r *rand.Rand) []KV {
		al := []byte("abcdefghijklmnopqrstuvwxyz")
		if r.Intn(2) == 0 {
			al = alphabet(r)
		}
		var suf []string
		for n := 1 + r.Intn(300); n > 0; n-- {
			suf = append(suf, word(r, al, 8))
		}
		set := map[string]bool{}
		for n := 60000 + r.Intn(60000); n > 0; n-- {
			set[word(r, al, 8)+suf[r.Intn(len(suf))]] = true
		}
		return finish(r, set)
	},
	// beyond 2^21 units: extended offsets, and merged tails reached over them
	"huge": func(r *rand.Rand) []KV {
		al := make([]byte, 8+r.Intn(120))
		for i := range al {
			al[i] = byte(1 + r.Intn(255))
		}
		var suf []string
		for n := 100 + r.Intn(400); n > 0; n-- {
			suf = append(suf, word(r, al, 6))
		}
		n := 500000 + r.Intn(400000)
		keys := make([]string, 0, n)
		for ; n > 0; n-- {
			b := make([]byte, 4+r.Intn(3))
			for i := range b {
				b[i] = al[r.Intn(len(al))]
			}
			keys = append(keys, string(b)+suf[r.Intn(len(suf))])
		}
		sort.Strings(keys)
		var out []KV
		mode := r.Intn(2)
		for i, k := range keys {
			if i > 0 && keys[i-1] == k {
				continue
			}
			v := int32(0)
			if mode == 1 {
				v = int32(r.Intn(4))
			}
			if i%3 == 0 {
				v = int32(i)
			}
			out = append(out, KV{k, v})
		}
		return out
	},
}

// order in which generators are tried, with weights per round
var schedule = []struct {
	gen string
	n   int
}{
	{"empty", 1}, {"tiny", 400}, {"small", 120}, {"merge", 60}, {"wide", 12}, {"medium", 10}, {"long", 4}, {"ladder", 20}, {"sparse2", 2}, {"blocks", 6}, {"dense2", 1}, {"words", 1},
}
