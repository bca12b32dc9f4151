// Package engine runs generated cases of the properties in /verif/properties.jsonl.
//
// A property consists of one or more parts. A part draws a case (a plain,
// JSON-serialisable value) with rapid and executes it against the code under
// test, by default inside a testing/synctest bubble, whose clock is fake. Every
// case is journalled before it runs, so that a case that takes the whole
// process down can still be replayed.
package engine

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Env is what a case execution reports to.
type Env struct {
	real bool
	T    *testing.T

	mu         sync.Mutex
	nontrivial bool
	classes    map[string]int
	fails      []string
	noLeaks    bool
}

type abort struct{}

// NonTrivial marks the case as non-trivial by the part's rule.
func (e *Env) NonTrivial() {
	e.mu.Lock()
	e.nontrivial = true
	e.mu.Unlock()
}

// Class counts the case towards a named class.
func (e *Env) Class(format string, args ...any) {
	e.mu.Lock()
	e.classes[fmt.Sprintf(format, args...)] = 1
	e.mu.Unlock()
}

// Failf records a violation; the first one is reported.
func (e *Env) Failf(format string, args ...any) {
	e.mu.Lock()
	e.fails = append(e.fails, fmt.Sprintf(format, args...))
	e.mu.Unlock()
}

// Fatalf records a violation and ends the case. Only for the case's own goroutine.
func (e *Env) Fatalf(format string, args ...any) {
	e.Failf(format, args...)
	panic(abort{})
}

// Skipf ends the case without a verdict. Only for the case's own goroutine.
func (e *Env) Skipf(format string, args ...any) {
	e.Class("skipped: "+format, args...)
	panic(abort{})
}

// Sync waits until all goroutines of the case are blocked, and orders what they
// did before what the caller does next (for the race detector, too).
func (e *Env) Sync() {
	if !e.real {
		synctest.Wait()
	}
}

// NoLeaks makes goroutines that are left for ever in the case's bubble a violation.
func (e *Env) NoLeaks() {
	e.mu.Lock()
	e.noLeaks = true
	e.mu.Unlock()
}

// Failed says whether a violation has been recorded.
func (e *Env) Failed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return len(e.fails) > 0
}

type Part struct {
	Prop   string
	Name   string
	Rule   string
	Quick  int // cases per shard in the quick tier
	Thor   int // cases per shard in the thorough tier
	Real   bool
	Known  string // when set: the id of the known finding this fixed case shows
	gen    func(*rapid.T) any
	decode func([]byte) (any, error)
	exec   func(*Env, any)
	fixed  any
}

var (
	parts  []*Part
	byProp = map[string][]*Part{}
)

type Opt func(*Part)

// Real makes the part run in real time, outside a bubble.
func Real() Opt { return func(p *Part) { p.Real = true } }

// Add registers a generated part. quick and thorough are cases per shard.
func Add[C any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) C, exec func(*Env, C), opts ...Opt) {
	p := &Part{Prop: prop, Name: name, Rule: rule, Quick: quick, Thor: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		exec: func(e *Env, c any) { exec(e, c.(C)) },
	}
	for _, o := range opts {
		o(p)
	}
	parts = append(parts, p)
	byProp[prop] = append(byProp[prop], p)
}

func find(prop, name string) *Part {
	for _, p := range byProp[prop] {
		if p.Name == name {
			return p
		}
	}
	return nil
}

// Case is the replay file format.
type Case struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Case     json.RawMessage `json:"case"`
	Failures []string        `json:"failures,omitempty"`
	Note     string          `json:"note,omitempty"`
}

type PartResult struct {
	Rule       string            `json:"rule"`
	Executed   int               `json:"executed"`
	NonTrivial []uint64          `json:"nontrivial"` // hashes of the distinct non-trivial cases
	Classes    map[string]int    `json:"classes"`
	Samples    []json.RawMessage `json:"samples"`
	Leaked     int               `json:"leaked"`
	CutShort   bool              `json:"cut_short"`
}

type Result struct {
	Property  string                 `json:"property"`
	Parts     map[string]*PartResult `json:"parts"`
	Violation *Case                  `json:"violation,omitempty"`
	Done      bool                   `json:"done"`
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int) int {
	n, err := strconv.Atoi(env(k, ""))
	if err != nil {
		return def
	}
	return n
}

type runner struct {
	t       *testing.T
	journal string
	hangS   int
	res     *Result
	last    *Case
	seen    map[uint64]bool
}

func (r *runner) write(name string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(name+".tmp", b, 0o644)
	}
	if err == nil {
		err = os.Rename(name+".tmp", name)
	}
	if err != nil {
		fmt.Println("ENGINE-ERROR", err)
		os.Exit(3)
	}
}

// run executes one case and returns its violations.
func (r *runner) run(p *Part, c any, record bool) []string {
	raw, err := json.Marshal(c)
	if err != nil {
		fmt.Println("ENGINE-ERROR", err)
		os.Exit(3)
	}
	cs := &Case{Property: p.Prop, Part: p.Name, Case: raw}
	if r.journal != "" {
		b, _ := json.Marshal(cs)
		if err := os.WriteFile(r.journal, b, 0o644); err != nil {
			fmt.Println("ENGINE-ERROR", err)
			os.Exit(3)
		}
	}

	e := &Env{real: p.Real, classes: map[string]int{}}
	finished, leaked, hang := false, false, ""

	watchdog := time.AfterFunc(time.Duration(r.hangS)*time.Second, func() {
		buf := make([]byte, 64<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Printf("ENGINE-HANG after %ds in %s/%s\n%s\n", r.hangS, p.Prop, p.Name, newest(buf))
		os.Exit(77)
	})

	body := func() {
		defer func() {
			finished = true
			if x := recover(); x != nil {
				if _, ok := x.(abort); !ok {
					e.Failf("panic: %v\n%s", x, debug.Stack())
				}
			}
		}()
		p.exec(e, c)
	}

	if p.Real {
		e.T = r.t
		body()
	} else {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if finished {
						leaked = true
					} else {
						hang = fmt.Sprintf("%v", x)
					}
				}
			}()
			synctest.Test(r.t, func(t *testing.T) {
				e.T = t
				body()
			})
		}()
		if hang != "" {
			e.Failf("every goroutine is blocked for ever, the caller included: %s\n%s", hang, blocked())
		}
	}
	if leaked && e.noLeaks && len(e.fails) == 0 {
		buf := make([]byte, 64<<20)
		buf = buf[:runtime.Stack(buf, true)]
		e.Failf("goroutines were left blocked for ever after everything was closed:\n%s", newest(buf))
	}
	watchdog.Stop()

	if record {
		pr := r.res.Parts[p.Name]
		pr.Executed++
		if leaked {
			pr.Leaked++
		}
		e.mu.Lock()
		for k, v := range e.classes {
			pr.Classes[k] += v
		}
		if e.nontrivial {
			h := fnv.New64a()
			h.Write([]byte(p.Name))
			h.Write(raw)
			if v := h.Sum64(); !r.seen[v] {
				r.seen[v] = true
				pr.NonTrivial = append(pr.NonTrivial, v)
			}
			if n := len(pr.Samples); n < 3 && len(raw) < 4000 && (n == 0 || pr.Executed > 20*n) {
				pr.Samples = append(pr.Samples, raw)
			}
		}
		e.mu.Unlock()
	}

	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.fails) > 0 {
		cs.Failures = append([]string(nil), e.fails...)
		if len(cs.Failures) > 10 {
			cs.Failures = cs.Failures[:10]
		}
		r.last = cs
		return cs.Failures
	}
	return nil
}

var bubble = regexp.MustCompile(`^goroutine \d+ .*synctest bubble (\d+)`)

// newest keeps the goroutines of the newest bubble: older ones are left over
// from cases before.
func newest(stacks []byte) string {
	last, keep := 0, []string(nil)
	for _, g := range bytes.Split(stacks, []byte("\n\n")) {
		m := bubble.FindSubmatch(g)
		if m == nil {
			continue
		}
		switch n, _ := strconv.Atoi(string(m[1])); {
		case n > last:
			last, keep = n, []string{string(g)}
		case n == last:
			keep = append(keep, string(g))
		}
	}
	if keep == nil {
		return string(stacks[:min(len(stacks), 20000)])
	}
	// what runs, or waits for something that fake time does not wait for, comes first
	sort.SliceStable(keep, func(i, j int) bool {
		return !strings.Contains(keep[i][:min(len(keep[i]), 80)], "(durable)") && strings.Contains(keep[j][:min(len(keep[j]), 80)], "(durable)")
	})
	s := strings.Join(keep, "\n\n")
	return s[:min(len(s), 400000)]
}

// blocked returns the stacks of goroutines that are inside the code under test.
func blocked() string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if s := string(g); strings.Contains(s, "synctest") && strings.Contains(s, "/psrpc") {
			out = append(out, s)
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}

func mix(seed int, s string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, s, shard)
	v := h.Sum64() & (1<<63 - 1)
	if v == 0 {
		v = 1
	}
	return v
}

// Main is the body of the one test of the check binary.
func Main(t *testing.T) {
	prop := env("CHK_PROP", "")
	tier := env("CHK_TIER", "quick")
	seed := envInt("CHK_SEED", 1)
	shard := envInt("CHK_SHARD", 0)
	out := env("CHK_OUT", "")
	softS := envInt("CHK_SOFT_S", 40)
	shrinkS := envInt("CHK_SHRINK_S", 15)
	only := env("CHK_PART", "")

	r := &runner{t: t, seen: map[uint64]bool{}, hangS: envInt("CHK_HANG_S", 60), res: &Result{Property: prop, Parts: map[string]*PartResult{}}}
	if out != "" {
		r.journal = filepath.Join(filepath.Dir(out), fmt.Sprintf("journal-%d.json", shard))
	}

	if f := env("CHK_REPLAY", ""); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Println("ENGINE-ERROR", err)
			os.Exit(3)
		}
		var cs Case
		if err = json.Unmarshal(b, &cs); err != nil {
			fmt.Println("ENGINE-ERROR", err)
			os.Exit(3)
		}
		p := find(cs.Property, cs.Part)
		if p == nil {
			fmt.Println("ENGINE-ERROR no part", cs.Property, cs.Part)
			os.Exit(3)
		}
		c, err := p.decode(cs.Case)
		if err != nil {
			fmt.Println("ENGINE-ERROR", err)
			os.Exit(3)
		}
		n := envInt("CHK_REPLAY_N", 1)
		bad, from := 0, time.Now()
		for i := range n {
			if i > 0 && time.Since(from) > time.Duration(envInt("CHK_REPLAY_S", 20))*time.Second {
				n = i
				break
			}
			if fs := r.run(p, c, false); fs != nil {
				bad++
				if bad == 1 {
					fmt.Println("REPLAY-FAILS", strings.Join(fs, "\n"))
				}
			}
		}
		fmt.Printf("REPLAY-RESULT %d/%d\n", bad, n)
		os.Exit(0)
	}

	if len(byProp[prop]) == 0 {
		fmt.Println("ENGINE-ERROR no property", prop)
		os.Exit(3)
	}

	start := time.Now()
	total := 0
	for _, p := range byProp[prop] {
		total += 1
		r.res.Parts[p.Name] = &PartResult{Rule: p.Rule, Classes: map[string]int{}}
	}
	scale := envInt("CHK_SCALE_PCT", 100)

	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Println("ENGINE-ERROR", err)
			os.Exit(3)
		}
	}
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", fmt.Sprintf("%ds", shrinkS))

	ps := byProp[prop]
	for i, p := range ps {
		if only != "" && only != p.Name {
			continue
		}
		n := p.Quick
		if tier == "thorough" {
			n = p.Thor
		}
		n = max(1, n*scale/100)
		set("rapid.checks", strconv.Itoa(n))
		set("rapid.seed", strconv.FormatUint(mix(seed, prop+"/"+p.Name, shard), 10))
		// each part may use the time up to its share of the soft limit
		limit := start.Add(time.Duration(softS) * time.Second * time.Duration(i+1) / time.Duration(len(ps)))
		pr := r.res.Parts[p.Name]
		ok := t.Run(p.Name, func(t *testing.T) {
			r.t = t
			rapid.Check(t, func(rt *rapid.T) {
				if r.last == nil && time.Now().After(limit) {
					pr.CutShort = true
					return
				}
				c := p.gen(rt)
				if fs := r.run(p, c, true); fs != nil {
					rt.Fatalf("violation") // constant: rapid shrinks only to equal failures
				}
			})
		})
		r.t = t
		if r.last != nil {
			r.res.Violation = r.last
			break
		}
		if !ok {
			fmt.Println("ENGINE-ERROR rapid failed without a violation in", p.Name)
			os.Exit(3)
		}
	}
	for _, p := range r.res.Parts {
		sort.Slice(p.NonTrivial, func(i, j int) bool { return p.NonTrivial[i] < p.NonTrivial[j] })
	}
	r.res.Done = true
	if out != "" {
		r.write(out, r.res)
	}
	for name, p := range r.res.Parts {
		fmt.Printf("PART %s executed=%d nontrivial=%d leaked=%d cut=%v classes=%v\n", name, p.Executed, len(p.NonTrivial), p.Leaked, p.CutShort, p.Classes)
	}
	if r.res.Violation != nil {
		fmt.Printf("FAIL %s/%s %s\ncase: %s\n", prop, r.res.Violation.Part, r.res.Violation.Failures[0], r.res.Violation.Case)
	}
	os.Exit(0)
}
