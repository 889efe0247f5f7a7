// Package lib is the common part of the checks: run context, counting, violation artefacts and evidence.
package lib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// R is the context of one check run.
type R struct {
	mu          sync.Mutex
	Prop        string
	Tier        string
	Seed        int64
	Level       string
	Rule        string
	Assumptions []string
	Extra       map[string]any

	start      time.Time
	deadline   time.Time
	evals      int64
	states     int64
	trans      int64
	traces     int64
	distinct   map[uint64]struct{}
	outcomes   map[string]int64
	samples    []any
	exhaustive bool
	stopped    string
	violations []string
	known      map[string]string
	knownHit   map[string]bool
}

type stop struct{}

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func New(prop, level, rule string) *R {
	r := &R{Prop: prop, Level: level, Rule: rule, Tier: os.Getenv("VERIF_TIER"), Extra: map[string]any{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r.start = RealNow()
	budget := 100 * time.Second
	if r.Tier == "thorough" {
		budget = 20 * time.Minute
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	r.deadline = r.start.Add(budget)
	r.distinct = map[uint64]struct{}{}
	r.outcomes = map[string]int64{}
	r.exhaustive = true
	r.known = map[string]string{}
	r.knownHit = map[string]bool{}
	r.loadKnown()
	return r
}

// Thorough reports whether the deep bounds apply.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q on the quick tier and t on the thorough one.
func (r *R) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

type knownEntry struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func (r *R) loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k knownEntry
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == r.Prop && k.Status == "open" && k.Key != "" {
			r.known[k.Key] = k.What
		}
	}
}

// OverBudget tells whether the time budget of this run is used up.
func (r *R) OverBudget() bool {
	return RealNow().After(r.deadline)
}

// RealNow reads the clock of the machine, also inside a bubble of virtual time.
func RealNow() time.Time {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec, tv.Usec*1000)
}

// Cap notes that a part of the space was not enumerated.
func (r *R) Cap(why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.exhaustive = false
	if r.stopped == "" {
		r.stopped = why
	} else if !strings.Contains(r.stopped, why) {
		r.stopped += "; " + why
	}
}

// Case counts one evaluation; key identifies it (distinct non-trivial cases are counted by hash).
func (r *R) Case(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	r.mu.Lock()
	r.evals++
	if len(r.distinct) < 4<<20 {
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Remaining is the rest of the time budget.
func (r *R) Remaining() time.Duration {
	if d := r.deadline.Sub(RealNow()); d > 0 {
		return d
	}
	return 0
}

// Distinct counts a distinct case that was already counted as an evaluation.
func (r *R) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	r.mu.Lock()
	if len(r.distinct) < 4<<20 {
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Eval counts an evaluation that is a repeat or a trivial one.
func (r *R) Eval(n int) { r.mu.Lock(); r.evals += int64(n); r.mu.Unlock() }

func (r *R) AddStates(n int)      { r.mu.Lock(); r.states += int64(n); r.mu.Unlock() }
func (r *R) AddTransitions(n int) { r.mu.Lock(); r.trans += int64(n); r.mu.Unlock() }
func (r *R) AddTraces(n int)      { r.mu.Lock(); r.traces += int64(n); r.mu.Unlock() }

// Outcome tallies an observed outcome class, to show that the exploration is not vacuous.
func (r *R) Outcome(o string) { r.mu.Lock(); r.outcomes[o]++; r.mu.Unlock() }

func (r *R) Sample(s any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
}

// Fail reports a violation and ends the run. key identifies the failing case for the known-findings file.
func (r *R) Fail(key string, detail any) {
	r.Report(key, detail)
	r.mu.Lock()
	bad := len(r.violations) > 0
	r.mu.Unlock()
	if bad {
		panic(stop{})
	}
}

// Report records a violation without ending the run.
func (r *R) Report(key string, detail any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, what := range r.known {
		if k == key {
			if !r.knownHit[k] {
				r.knownHit[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
			}
			return
		}
	}
	if len(r.violations) > 0 {
		return
	}
	dir := filepath.Join(verifDir(), "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, r.Prop+".json")
	b, err := json.MarshalIndent(map[string]any{"property": r.Prop, "key": key, "detail": detail}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%s\n%v", key, detail))
	}
	_ = os.WriteFile(p, append(b, '\n'), 0o644)
	r.violations = append(r.violations, key)
	fmt.Printf("violation detail: %s\n%.4000s\n", key, b)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
}

func (r *R) Violated() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.violations) > 0 }

// Guard runs f and turns a panic of the code under test into a violation.
func (r *R) Guard(key string, detail func() any, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				panic(e)
			}
			r.Fail("panic:"+key, map[string]any{"panic": fmt.Sprint(e), "stack": string(debug.Stack()), "input": detail()})
		}
	}()
	f()
}

// Run executes the body and returns the process exit code.
func (r *R) Run(body func()) (code int) {
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					return
				}
				r.Report(fmt.Sprintf("panic:%v", e), map[string]any{"panic": fmt.Sprint(e), "stack": string(debug.Stack())})
			}
		}()
		body()
	}()
	r.writeEvidence()
	if len(r.violations) > 0 {
		return 1
	}
	return 0
}

func (r *R) writeEvidence() {
	cov := map[string]any{"evaluations": r.evals, "exhaustive": r.exhaustive && len(r.violations) == 0}
	samples := r.samples
	if samples == nil {
		samples = []any{}
	}
	cov["samples"] = samples
	cov["rule"] = r.Rule
	cov["distinct_nontrivial"] = len(r.distinct)
	if r.Level == "model_checking" {
		cov["states"] = r.states
		cov["transitions"] = r.trans
		cov["traces_validated_against_impl"] = r.traces
	}
	if r.stopped != "" {
		cov["not_covered"] = r.stopped
	}
	if len(r.outcomes) > 0 {
		ks := make([]string, 0, len(r.outcomes))
		for k := range r.outcomes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) > 40 {
			cov["distinct_outcomes"] = len(ks)
			ks = ks[:40]
		}
		m := map[string]int64{}
		for _, k := range ks {
			m[k] = r.outcomes[k]
		}
		cov["outcomes"] = m
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": RealNow().Sub(r.start).Seconds(), "violations": len(r.violations)}
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(verifDir(), "evidence", r.Prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: evaluations=%d distinct=%d states=%d transitions=%d outcomes=%d exhaustive=%v %s wall=%.1fs\n", r.Prop, r.Tier, r.evals,
		len(r.distinct), r.states, r.trans, len(r.outcomes), r.exhaustive, r.stopped, RealNow().Sub(r.start).Seconds())
}
