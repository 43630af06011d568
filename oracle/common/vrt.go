package common

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

// vOracle evaluates the executable form of a property's contracts on concrete
// inputs of the real code. It reports failing inputs; it never decides "proved".
type vOracle struct {
	mu      sync.Mutex
	t       *testing.T
	R       *rand.Rand
	Tier    string
	rule    string
	evals   int
	seen    map[uint64]bool
	samples []string
	fails   []vFail
	keys    map[string]int
	cur     string
	start   time.Time
	trace   *os.File
	limit   time.Duration
	stopAt  time.Time
}

type vFail struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Input  string `json:"input"`
	Expect string `json:"expect"`
	Got    string `json:"got"`
}

func vNew(t *testing.T, rule string) *vOracle {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	o := &vOracle{t: t, R: rand.New(rand.NewSource(int64(seed))), Tier: os.Getenv("ORACLE_TIER"), rule: rule,
		seen: map[uint64]bool{}, keys: map[string]int{}, limit: 8 * time.Second}
	if o.Tier == "" {
		o.Tier = "quick"
	}
	o.stopAt = time.Now().Add(150 * time.Second)
	if o.Tier == "thorough" {
		o.stopAt = time.Now().Add(2500 * time.Second)
	}
	if p := os.Getenv("ORACLE_TRACE"); p != "" {
		o.trace, _ = os.Create(p)
	}
	debug.SetMaxStack(256 << 20)
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			o.mu.Lock()
			if o.cur != "" && time.Since(o.start) > o.limit {
				o.fails = append(o.fails, vFail{Key: "hang", What: "no answer within " + o.limit.String(), Input: o.cur})
				o.write()
				os.Exit(0)
			}
			o.mu.Unlock()
		}
	}()
	return o
}

// N scales a case count with the tier.
func (o *vOracle) N(quick int) int {
	if o.Tier == "thorough" {
		return quick * 12
	}
	return quick
}

func (o *vOracle) Expired() bool { return time.Now().After(o.stopAt) || len(o.fails) > 40 }

// Case runs f on one input. f reports through the fail callback.
func (o *vOracle) Case(input string, nontrivial bool, f func(fail func(key, what string, expect, got any))) {
	o.mu.Lock()
	o.cur, o.start = input, time.Now()
	if o.cur == "" {
		o.cur = "(empty)"
	}
	o.mu.Unlock()
	if o.trace != nil {
		o.trace.Truncate(0)
		o.trace.WriteAt([]byte("case: "+input), 0)
	}
	defer func() {
		if r := recover(); r != nil {
			o.add("panic", fmt.Sprintf("panic: %v", r), input, "no panic", vTrim(string(debug.Stack())))
		}
		if o.trace != nil {
			o.trace.Truncate(0)
		}
		o.mu.Lock()
		o.cur = ""
		o.evals++
		if nontrivial {
			h := fnv.New64a()
			h.Write([]byte(input))
			k := h.Sum64()
			if !o.seen[k] {
				o.seen[k] = true
				if n := len(o.seen); n == 1 || n == 40 || n == 400 || n == 4000 {
					o.samples = append(o.samples, vClip(input, 200))
				}
			}
		}
		o.mu.Unlock()
	}()
	f(func(key, what string, expect, got any) {
		o.add(key, what, input, fmt.Sprintf("%+v", expect), fmt.Sprintf("%+v", got))
	})
}

func (o *vOracle) add(key, what, input, expect, got string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.keys[key]++
	if o.keys[key] > 3 {
		return
	}
	o.fails = append(o.fails, vFail{key, what, input, vClip(expect, 2000), vClip(got, 2000)})
}

func vClip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func vTrim(s string) string { return vClip(s, 1500) }

func (o *vOracle) write() {
	p := os.Getenv("ORACLE_OUT")
	b, _ := json.Marshal(map[string]any{"evaluations": o.evals, "distinct": len(o.seen), "rule": o.rule, "samples": o.samples, "failures": o.fails})
	if p != "" {
		os.WriteFile(p, b, 0o644)
	}
}

func (o *vOracle) Done() {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.write()
	for _, f := range o.fails {
		o.t.Logf("%+v", f)
	}
	if len(o.fails) > 0 {
		o.t.Fail()
	}
}
