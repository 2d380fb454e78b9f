// Package main is the bounded concrete companion of the proofs (Layer 2): it runs the real, unmodified library code
// on enumerated and pseudo-random inputs and compares the observable behaviour with independent reference
// definitions. It is laid over /repo with 'go build -overlay'; only exported API (plus internal/http's client, to
// answer requests locally) is used.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Violation is one concrete counterexample
type Violation struct {
	Case   string `json:"case"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	Input  any    `json:"input,omitempty"`
}

// H is the state of one harness run
type H struct {
	Prop       string
	Seed       int64
	Thorough   bool
	Shard      int
	Shards     int
	Only       string
	CurFile    *os.File
	mu         sync.Mutex
	Eval       int64
	Distinct   map[uint64]struct{}
	Samples    []string
	Families   map[string]int
	Violations []Violation
	deadline   time.Time
	truncated  bool
}

// C is one case
type C struct {
	H     *H
	Name  string
	Idx   int
	R     *rand.Rand
	Input any
	n     int
	Start time.Time
}

// Fail records a violation
func (c *C) Fail(kind, format string, args ...any) {
	c.H.mu.Lock()
	defer c.H.mu.Unlock()
	if len(c.H.Violations) < 20 {
		c.H.Violations = append(
			c.H.Violations, Violation{
				Case: c.Name, Kind: kind, Detail: trunc(fmt.Sprintf(format, args...), 4000), Input: c.Input,
			},
		)
	}
}

// Eval counts an evaluation of the property; key identifies distinct nontrivial situations
func (c *C) Eval(key string) {
	f := fnv.New64a()
	f.Write([]byte(key))
	k := f.Sum64()
	c.H.mu.Lock()
	defer c.H.mu.Unlock()
	c.H.Eval++
	if _, ok := c.H.Distinct[k]; !ok && len(c.H.Distinct) < 2000000 {
		c.H.Distinct[k] = struct{}{}
		if len(c.H.Samples) < 8 && len(key) > 0 {
			c.H.Samples = append(c.H.Samples, trunc(key, 240))
		}
	}
}

// Must fails unless cond
func (c *C) Must(cond bool, kind, format string, args ...any) bool {
	if !cond {
		c.Fail(kind, format, args...)
	}
	return cond
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var caseTimeout = 90 * time.Second

// Case runs a single named case in this shard
func (h *H) Case(family string, idx int, f func(c *C)) {
	name := family + ":" + strconv.Itoa(idx)
	if h.Only != "" {
		if h.Only != name {
			return
		}
	} else {
		fh := fnv.New32a()
		fh.Write([]byte(name))
		if int(fh.Sum32()%uint32(h.Shards)) != h.Shard {
			return
		}
		if time.Now().After(h.deadline) {
			h.truncated = true
			return
		}
	}
	fh := fnv.New64a()
	fmt.Fprintf(fh, "%d/%s/%s", h.Seed, h.Prop, name)
	c := &C{H: h, Name: name, Idx: idx, R: rand.New(rand.NewSource(int64(fh.Sum64()))), Start: time.Now()}
	h.Families[family]++
	if h.CurFile != nil {
		h.CurFile.WriteAt([]byte(fmt.Sprintf("%-120s", name)), 0)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				c.Fail("panic", "%v\n%s", r, debug.Stack())
			}
		}()
		f(c)
	}()
	select {
	case <-done:
	case <-time.After(caseTimeout):
		c.Fail("no-termination", "case did not finish within %s", caseTimeout)
		h.write()
		os.Exit(0)
	}
	if len(h.Violations) >= 20 {
		h.write()
		os.Exit(0)
	}
}

// N chooses the number of cases by tier
func (h *H) N(quick, thorough int) int {
	if h.Thorough {
		return thorough
	}
	return quick
}

// Cases runs idx 0..n-1 of a family
func (h *H) Cases(family string, n int, f func(c *C)) {
	if h.Only != "" {
		i := strings.LastIndex(h.Only, ":")
		if h.Only[:i] == family {
			idx, _ := strconv.Atoi(h.Only[i+1:])
			h.Case(family, idx, f)
		}
		return
	}
	for i := 0; i < n; i++ {
		h.Case(family, i, f)
	}
}

var outPath string

func (h *H) write() {
	type out struct {
		Evaluations int64          `json:"evaluations"`
		Distinct    []string       `json:"distinct"`
		Samples     []string       `json:"samples"`
		Families    map[string]int `json:"families"`
		Violations  []Violation    `json:"violations"`
		Truncated   bool           `json:"truncated"`
	}
	o := out{Evaluations: h.Eval, Samples: h.Samples, Families: h.Families, Violations: h.Violations, Truncated: h.truncated}
	for k := range h.Distinct {
		o.Distinct = append(o.Distinct, strconv.FormatUint(k, 36))
	}
	sort.Strings(o.Distinct)
	data, err := json.Marshal(o)
	if err != nil {
		for i := range o.Violations {
			o.Violations[i].Input = fmt.Sprintf("%+v", o.Violations[i].Input)
		}
		data, err = json.Marshal(o)
		if err != nil {
			panic(err)
		}
	}
	if outPath == "" {
		o.Distinct = nil
		data, _ = json.MarshalIndent(o, "", " ")
		fmt.Println(string(data))
		return
	}
	if err := os.WriteFile(outPath, data, 0o644); err != nil {
		panic(err)
	}
}

var properties = map[string]func(h *H){}

func main() {
	h := &H{Distinct: map[uint64]struct{}{}, Families: map[string]int{}}
	var tier, cur string
	var budget float64
	flag.StringVar(&h.Prop, "prop", "", "property")
	flag.Int64Var(&h.Seed, "seed", 1, "seed")
	flag.StringVar(&tier, "tier", "quick", "tier")
	flag.IntVar(&h.Shard, "shard", 0, "")
	flag.IntVar(&h.Shards, "shards", 1, "")
	flag.StringVar(&h.Only, "only", "", "run a single case family:index")
	flag.StringVar(&outPath, "out", "", "")
	flag.StringVar(&cur, "cur", "", "file that names the case being run")
	flag.Float64Var(&budget, "budget", 240, "seconds")
	flag.Parse()
	h.Thorough = tier == "thorough"
	h.deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	if cur != "" {
		f, err := os.Create(cur)
		if err != nil {
			panic(err)
		}
		h.CurFile = f
	}
	f, ok := properties[h.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", h.Prop)
		os.Exit(3)
	}
	simInit(h.Prop == "P19")
	f(h)
	h.write()
}

func jstr(v any) string {
	data, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(data)
}

// norm gives the canonical generic value of v's JSON
func norm(v any) any {
	data, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	var g any
	if err = json.Unmarshal(data, &g); err != nil {
		return "!!" + err.Error()
	}
	return g
}

func njson(v any) string {
	return jstr(norm(v))
}

func pick[T any](r *rand.Rand, xs ...T) T {
	return xs[r.Intn(len(xs))]
}

func chance(r *rand.Rand, p float64) bool {
	return r.Float64() < p
}

// almost gives a text that is almost s: identity comparisons must be exact
func almost(r *rand.Rand, s string, others ...string) string {
	switch k := r.Intn(14); {
	case k == 0:
		return ""
	case k == 1:
		return s + "/"
	case k == 2 && len(s) > 0:
		return s[:len(s)-1]
	case k == 3 && len(s) > 0:
		return s[1:]
	case k == 4:
		return strings.ToUpper(s)
	case k == 5:
		return " " + s
	case k == 6:
		return s + "x"
	case k == 7:
		return s[:len(s)/2]
	case k == 8:
		return s + s
	case k == 9:
		return strings.Replace(s, "https://", "http://", 1)
	case k == 10:
		return s + ":443"
	case k == 11:
		return s + "/fetch"
	case len(others) > 0:
		return others[r.Intn(len(others))]
	}
	return s + "?"
}
