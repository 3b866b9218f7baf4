// The search for failing inputs: runs the real code (public API only) against a plain sorted map.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

var repoDir string

func unhex(s string) string { b, _ := hex.DecodeString(s); return string(b) }
func tohex(s string) string { return hex.EncodeToString([]byte(s)) }

type Result struct {
	Property    string         `json:"property"`
	Violation   bool           `json:"violation"`
	Detail      string         `json:"detail,omitempty"`
	Case        *Case          `json:"case,omitempty"`
	Evaluations int64          `json:"evaluations"`
	Nontrivial  int64          `json:"distinct_nontrivial"`
	Checks      int64          `json:"checks"`
	PerGen      map[string]int `json:"per_gen"`
	Samples     []string       `json:"samples"`
	Seconds     float64        `json:"seconds"`
}

type slot struct {
	mu    sync.Mutex
	c     *Case
	start time.Time
}

var (
	prop   = flag.String("prop", "", "property")
	budget = flag.Duration("time", 30*time.Second, "time budget")
	rounds = flag.Int("rounds", 0, "stop after this many rounds of the schedule (0: time only)")
	seed   = flag.Int64("seed", 1, "seed")
	jobs   = flag.Int("j", 8, "workers")
	repo   = flag.String("repo", "/repo", "repository (for its word list)")
	replay = flag.String("replay", "", "replay one case from a JSON file")
	outF   = flag.String("o", "", "result file")
	curDir = flag.String("cur", "", "directory for the cases being run (to find a crashing one)")
	heavy  = flag.Bool("heavy", false, "include large and huge generators")
	limit  = flag.Duration("hang", 20*time.Second, "a small case running longer than this hangs")
)

var checksDone int64

func output(r *Result) {
	b, _ := json.Marshal(r)
	if *outF != "" {
		os.WriteFile(*outF, b, 0o644)
	}
	fmt.Println(string(b))
}

func eval(p string, c *Case) (detail string) {
	defer func() {
		if x := recover(); x != nil {
			detail = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
		}
	}()
	return props[p](c)
}

// shrink removes keys while the case still fails.
func shrink(p string, c *Case, detail string) (*Case, string) {
	kvs := append([]KV{}, c.build()...)
	if len(kvs) > 200000 || isUtfc(p) {
		return c, detail
	}
	end := time.Now().Add(20 * time.Second)
	try := func(k []KV) string {
		done := make(chan string, 1)
		go func() { done <- eval(p, &Case{Gen: c.Gen, Seed: c.Seed, KVs: k}) }()
		select {
		case d := <-done:
			return d
		case <-time.After(5 * time.Second):
			return ""
		}
	}
	if d := try(kvs); d == "" { // depends on more than the keys
		return c, detail
	}
	for step := len(kvs) / 2; step > 0; {
		changed := false
		for i := 0; i+step <= len(kvs); {
			if time.Now().After(end) {
				step = 0
				break
			}
			k := append(append([]KV{}, kvs[:i]...), kvs[i+step:]...)
			if d := try(k); d != "" {
				kvs, detail, changed = k, d, true
			} else {
				i += step
			}
		}
		if step == 0 {
			break
		}
		if !changed || step > 1 {
			step /= 2
		}
	}
	n := &Case{Gen: c.Gen, Seed: c.Seed, KVs: kvs, Keys: []string{}, Vals: []int32{}}
	if len(kvs) <= 5000 {
		for _, e := range kvs {
			n.Keys = append(n.Keys, tohex(e.K))
			n.Vals = append(n.Vals, e.V)
		}
		return n, detail
	}
	return c, detail
}

func main() {
	flag.Parse()
	repoDir = *repo
	if props[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	t0 := time.Now()
	res := &Result{Property: *prop, PerGen: map[string]int{}}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var w struct{ Case *Case }
		if json.Unmarshal(b, &w) != nil || w.Case == nil {
			fmt.Fprintln(os.Stderr, "bad replay file")
			os.Exit(2)
		}
		done := make(chan string, 1)
		go func() { done <- eval(*prop, w.Case) }()
		select {
		case d := <-done:
			res.Detail = d
		case <-time.After(*limit):
			res.Detail = "does not terminate"
		}
		res.Violation = res.Detail != ""
		res.Case = w.Case
		output(res)
		if res.Violation {
			os.Exit(1)
		}
		return
	}
	type job struct {
		c    *Case
		slow bool
	}
	ch := make(chan job)
	var stop int32
	go func() {
		defer close(ch)
		send := func(g string, s int64, slow bool) bool {
			if atomic.LoadInt32(&stop) != 0 || time.Since(t0) > *budget {
				return false
			}
			ch <- job{&Case{Gen: g, Seed: s}, slow}
			return true
		}
		sch := schedule
		if isUtfc(*prop) {
			sch = utfcSchedule
		}
		for round := 0; *rounds == 0 || round < *rounds; round++ {
			for _, e := range sch {
				for i := 0; i < e.n; i++ {
					if !send(e.gen, *seed*1000003+int64(round)*7919+int64(i)*104729+int64(len(e.gen)), false) {
						return
					}
				}
			}
			if *heavy && !isUtfc(*prop) {
				if round%2 == 1 {
					send("large", *seed+int64(round), true)
				}
				if round%6 == 1 {
					send("huge", *seed+int64(round), true)
				}
			}
		}
	}()
	slots := make([]*slot, *jobs)
	var mu sync.Mutex
	seen := map[uint64]bool{}
	var wg sync.WaitGroup
	for i := range slots {
		slots[i] = &slot{}
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			s := slots[id]
			for j := range ch {
				if atomic.LoadInt32(&stop) != 0 {
					continue
				}
				s.mu.Lock()
				s.c, s.start = j.c, time.Now()
				if j.slow {
					s.start = time.Now().Add(300 * time.Second)
				}
				s.mu.Unlock()
				if *curDir != "" {
					b, _ := json.Marshal(map[string]*Case{"case": {Gen: j.c.Gen, Seed: j.c.Seed}})
					os.WriteFile(fmt.Sprintf("%s/%d.json", *curDir, id), b, 0o644)
				}
				d := eval(*prop, j.c)
				s.mu.Lock()
				s.c = nil
				s.mu.Unlock()
				h := fingerprint(j.c)
				mu.Lock()
				res.Evaluations++
				res.PerGen[j.c.Gen]++
				if len(j.c.KVs) > 1 && !seen[h] {
					seen[h] = true
					res.Nontrivial++
				}
				if len(res.Samples) < 3 && len(j.c.KVs) > 1 && len(j.c.KVs) < 12 {
					res.Samples = append(res.Samples, fmt.Sprintf("%s/%d: %q", j.c.Gen, j.c.Seed, j.c.KVs))
				}
				if d != "" && atomic.CompareAndSwapInt32(&stop, 0, 1) {
					mu.Unlock()
					c, d := shrink(*prop, j.c, d)
					mu.Lock()
					res.Violation, res.Detail, res.Case = true, d, c
				}
				mu.Unlock()
			}
		}(i)
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	tick := time.NewTicker(250 * time.Millisecond)
	for run := true; run; {
		select {
		case <-fin:
			run = false
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for _, s := range slots {
				s.mu.Lock()
				c, st := s.c, s.start
				s.mu.Unlock()
				if c != nil && atomic.LoadInt32(&stop) == 0 && (time.Since(st) > *limit || (ms.HeapAlloc > 10<<30 && time.Since(st) > 2*time.Second)) {
					atomic.StoreInt32(&stop, 1)
					mu.Lock()
					res.Violation, res.Detail, res.Case = true, fmt.Sprintf("does not terminate (ran for %v, heap %d MB)", time.Since(st), ms.HeapAlloc>>20), c
					res.Seconds = time.Since(t0).Seconds()
					output(res)
					os.Exit(1)
				}
			}
		}
	}
	res.Checks = checksDone
	res.Seconds = time.Since(t0).Seconds()
	output(res)
	if res.Violation {
		os.Exit(1)
	}
}

func fingerprint(c *Case) uint64 {
	h := uint64(14695981039346656037)
	for _, e := range c.KVs {
		for i := 0; i < len(e.K); i++ {
			h = (h ^ uint64(e.K[i])) * 1099511628211
		}
		h = (h ^ uint64(e.V) ^ 0x10000) * 1099511628211
	}
	return h
}
