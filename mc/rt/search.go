package rt

import (
	"fmt"
	"hash/fnv"
	"os"
	"strings"
	"time"
)

// Options bound an exploration.
type Options struct {
	Budget   int           // most deviations from the default schedule
	MaxSteps int           // steps after which an execution counts as not ending
	Horizon  time.Duration // virtual time after which a stuck execution is ended
	Align    time.Duration // executions start at a multiple of this in virtual time
	Shard    int
	Shards   int
	MaxExecs int
	Over     func() bool // asks whether the time is used up
	// StuckOK accepts executions whose body does not end.
	StuckOK bool
	// NoReplay: outcomes are not replayed.
	NoReplay bool
}

// Result summarises an exploration.
type Result struct {
	Execs    int            `json:"execs"`
	Steps    int            `json:"steps"`
	Nodes    int            `json:"nodes"`
	Depth    int            `json:"depth"`
	Budget   int            `json:"budget"`
	Complete bool           `json:"complete"`
	Why      string         `json:"why,omitempty"`
	Outcomes map[string]int `json:"outcomes,omitempty"`
	Active   []string       `json:"active,omitempty"`
	Bad      *Bad           `json:"bad,omitempty"`
	Diverged int            `json:"diverged,omitempty"`
	Replayed int            `json:"replayed,omitempty"`
	Example  []string       `json:"example,omitempty"`
}

// Bad is a violating execution.
type Bad struct {
	Crashes []Crash  `json:"crashes"`
	Stuck   []string `json:"stuck,omitempty"`
	Path    []int    `json:"path"`
	Trace   []string `json:"trace"`
	Notes   []string `json:"notes,omitempty"`
}

func prefixCost(p []node) (c int) {
	for _, n := range p {
		c += n.cost(n.taken)
	}
	return
}

// next computes the next path in depth first order; ok is false when there is none.
func next(p []node, o *Options) ([]node, bool) {
	cost := prefixCost(p)
	firstDev := -1
	for i, n := range p {
		if n.taken > 0 {
			firstDev = i
			break
		}
	}
	for i := len(p) - 1; i >= 0; i-- {
		n := p[i]
		cost -= n.cost(n.taken)
		for t := n.taken + 1; t < n.n; t++ {
			if cost+n.cost(t) > o.Budget {
				break
			}
			if (firstDev < 0 || firstDev >= i) && o.Shards > 1 && (i+int(t))%o.Shards != o.Shard {
				continue // another process explores this branch
			}
			q := append([]node(nil), p[:i+1]...)
			q[i].taken = t
			return q, true
		}
	}
	return nil, false
}

// SetActive replaces the set of fields whose accesses are scheduling points.
func SetActive(a []string) {
	active = map[string]bool{}
	for _, k := range a {
		active[k] = true
	}
}

// Explore runs body under every schedule within the bounds; body reports violations with Fail.
func Explore(o Options, body func(*Exec)) (r Result) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	if o.Horizon == 0 {
		o.Horizon = 10 * time.Minute
	}
	r.Budget = o.Budget
	r.Outcomes = map[string]int{}
restart:
	var path []node
	grown = false
	r.Complete = true
	for {
		if o.Over != nil && o.Over() {
			r.Complete, r.Why = false, "time budget"
			break
		}
		if o.MaxExecs > 0 && r.Execs >= o.MaxExecs {
			r.Complete, r.Why = false, "execution limit"
			break
		}
		given := len(path)
		e := exec(path, false, o.MaxSteps, o.Horizon, o.Align, body)
		r.Execs++
		r.Steps += e.steps
		r.Nodes += len(e.path) - given + 1
		if len(e.path) > r.Depth {
			r.Depth = len(e.path)
		}
		if e.div || e.pos < given {
			r.Diverged++
			if os.Getenv("MC_DIV") != "" {
				fmt.Fprintln(os.Stderr, "DIVERGED", e.div, e.pos, given, e.Notes)
			}
		}
		bad := e.Failed() || (!o.StuckOK && !e.bodyDone && e.foreign == "")
		if !bad && e.foreign != "" {
			r.Complete, r.Why = false, e.foreign
		}
		if !bad && !grown && r.outcome(e) && r.Replayed < 20 && !o.NoReplay {
			// replay: the same decisions must lead to the same observations
			f := exec(append([]node(nil), e.path...), r.Replayed == 0, o.MaxSteps, o.Horizon, o.Align, body)
			if f.div || f.Failed() || strings.Join(f.Notes, " ") != strings.Join(e.Notes, " ") {
				r.Diverged++
				if os.Getenv("MC_DIV") != "" {
					fmt.Fprintln(os.Stderr, "DIFFERENT", e.Notes, "AGAIN", f.Notes, f.div, f.crashes)
				}
			} else {
				r.Replayed++
				if r.Example == nil {
					r.Example = f.trace
					if len(r.Example) > 40 {
						r.Example = r.Example[:40]
					}
				}
			}
		}
		if bad {
			p := append([]node(nil), e.path...)
			// a trace of millions of steps would take minutes
			f := exec(append([]node(nil), p...), e.steps < 2000000, o.MaxSteps, o.Horizon, o.Align, body)
			if !f.Failed() && (o.StuckOK || f.bodyDone || f.foreign != "") {
				// not reproducible: not reported
				if os.Getenv("MC_DIV") != "" {
					fmt.Fprintln(os.Stderr, "NOT REPRODUCED", e.crashes, e.stuck, e.limit, e.Notes, "AGAIN", f.Notes, f.div, f.trace)
				}
				if !grown { // otherwise the search starts anew with more scheduling points
					r.Diverged++
				}
				r.Complete, r.Why = false, "an execution could not be replayed"
			} else {
				r.Bad = badOf(f)
				return
			}
		}
		if grown {
			goto restart
		}
		var ok bool
		path, ok = next(e.path[:min(e.pos, len(e.path))], &o)
		if !ok {
			break
		}
	}
	if r.Diverged > 0 {
		r.Complete, r.Why = false, fmt.Sprintf("%d executions were not repeatable", r.Diverged)
	}
	r.Active = ActiveFields()
	return
}

func badOf(f *Exec) *Bad {
	b := &Bad{Crashes: f.crashes, Stuck: f.stuck, Notes: f.Notes}
	if f.limit {
		b.Crashes = append(b.Crashes, Crash{"limit", "", "the execution does not end", ""})
	} else if !f.bodyDone && len(f.crashes) == 0 {
		b.Crashes = append(b.Crashes, Crash{"deadlock", "", "the scenario cannot go on: " + strings.Join(f.stuck, ", "), ""})
	}
	for _, n := range f.path {
		b.Path = append(b.Path, int(n.taken))
	}
	b.Trace = f.trace
	if len(b.Trace) > 400 {
		b.Trace = append(append([]string{}, b.Trace[:100]...), b.Trace[len(b.Trace)-300:]...)
	}
	return b
}

func (r *Result) outcome(e *Exec) (fresh bool) {
	s := strings.Join(e.Notes, " ")
	if len(s) > 120 {
		h := fnv.New64a()
		h.Write([]byte(s))
		s = fmt.Sprintf("%.100s…%x", s, h.Sum64())
	}
	if len(r.Outcomes) < 5000 || r.Outcomes[s] > 0 {
		r.Outcomes[s]++
	}
	fresh = r.Outcomes[s] == 1
	if os.Getenv("MC_TRACE") != "" && r.Outcomes[s] == 1 {
		fmt.Println("outcome:", s)
	}
	return
}

// Merge adds q to r.
func (r *Result) Merge(q Result) {
	r.Execs += q.Execs
	r.Steps += q.Steps
	r.Nodes += q.Nodes
	r.Diverged += q.Diverged
	r.Replayed += q.Replayed
	if r.Example == nil {
		r.Example = q.Example
	}
	if q.Depth > r.Depth {
		r.Depth = q.Depth
	}
	r.Complete = r.Complete && q.Complete
	if q.Why != "" {
		r.Why = q.Why
	}
	if r.Bad == nil {
		r.Bad = q.Bad
	}
	if r.Outcomes == nil {
		r.Outcomes = map[string]int{}
	}
	for k, n := range q.Outcomes {
		r.Outcomes[k] += n
	}
}
