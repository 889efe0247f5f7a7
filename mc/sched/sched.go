// Package sched runs the scenarios of a check under the controlled scheduler, in several processes, level by level of the
// number of deviations from the default schedule.
package sched

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/mc/lib"
	"verif/mc/rt"
)

// Scenario is a closed driver: threads, their operations and the environment, with its oracle inside the body.
type Scenario struct {
	Name string
	Opt  rt.Options
	// Max is the highest number of deviations to explore (0: the check's default).
	Max int
	// Once: a sequence of a single thread, run once, in a process of its own.
	Once bool
	// Wide: the scenario consists of free choices only and is explored at level 0, in many shards.
	Wide bool
	// Prep runs before the exploration of the scenario in a worker.
	Prep func()
	Body func(*rt.Exec)
}

type job struct {
	Scn      int      `json:"scn"`
	Budget   int      `json:"budget"`
	Shard    int      `json:"shard"`
	Shards   int      `json:"shards"`
	Active   []string `json:"active"`
	Deadline int64    `json:"deadline"`
}

type answer struct {
	Job    job       `json:"job"`
	Result rt.Result `json:"result"`
	Hang   string    `json:"hang,omitempty"`
}

// Child tells whether this process is a worker.
func Child() bool { return os.Getenv("MC_CHILD") != "" }

// Serve is the worker: it runs jobs inside one bubble until its input ends.
func Serve(t *testing.T, setup func(), scs []Scenario) {
	out := json.NewEncoder(os.NewFile(3, "results"))
	var cur job
	var mu sync.Mutex
	settle()
	go func() { // outside of the bubble: real time
		last, since := int64(-1), lib.RealNow()
		for {
			time.Sleep(2 * time.Second)
			n := rt.Progress.Load()
			if n != last || !rt.Busy() {
				last, since = n, lib.RealNow()
				continue
			}
			if lib.RealNow().Sub(since) > 120*time.Second {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				for _, g := range strings.Split(string(buf), "\n\n") {
					if (strings.Contains(g, "[runn")) && strings.Contains(g, "\t/repo/") {
						mu.Lock()
						_ = out.Encode(answer{Job: cur, Hang: g})
						os.Exit(0)
					}
				}
				os.Exit(9)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		if setup != nil {
			setup()
		}
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(make([]byte, 1<<20), 1<<24)
		for in.Scan() {
			var j job
			if json.Unmarshal(in.Bytes(), &j) != nil {
				continue
			}
			mu.Lock()
			cur = j
			mu.Unlock()
			rt.SetActive(j.Active)
			o := scs[j.Scn].Opt
			o.Budget, o.Shard, o.Shards = j.Budget, j.Shard, j.Shards
			o.Over = func() bool { return lib.RealNow().UnixMilli() > j.Deadline }
			o.NoReplay = scs[j.Scn].Once
			if p := scs[j.Scn].Prep; p != nil {
				p()
			}
			r := rt.Explore(o, scs[j.Scn].Body)
			mu.Lock()
			_ = out.Encode(answer{Job: j, Result: r})
			mu.Unlock()
		}
		os.Exit(0) // goroutines of the code under test may live on
	})
}

// settle waits until the goroutines that package initialisation started are blocked.
func settle() {
	buf := make([]byte, 1<<20)
	last, quiet := "", 0
	for i := 0; i < 2000; i++ {
		time.Sleep(2 * time.Millisecond)
		busy := 0
		var all []string
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			l, _, _ := strings.Cut(g, "\n")
			if strings.Contains(l, "[runn") {
				busy++
			}
			all = append(all, l)
		}
		sort.Strings(all)
		now := strings.Join(all, "\n")
		if busy > 1 || now != last {
			last, quiet = now, 0
			continue
		}
		if quiet++; quiet >= 8 {
			return
		}
	}
}

type worker struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
	err bytes.Buffer
}

func spawn() (*worker, error) {
	w := &worker{}
	w.cmd = exec.Command(os.Args[0])
	w.cmd.Env = append(os.Environ(), "MC_CHILD=1", "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w.cmd.ExtraFiles = []*os.File{pw}
	w.cmd.Stderr = &w.err
	w.cmd.Stdout = &w.err
	if os.Getenv("MC_DIV") != "" {
		w.cmd.Stderr = os.Stderr
	}
	if os.Getenv("MC_TRACE") != "" {
		w.cmd.Stdout = os.Stdout
	}
	si, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	w.in, w.out = json.NewEncoder(si), json.NewDecoder(pr)
	return w, nil
}

type state struct {
	active   []string
	done     int // highest completed level, -1 for none
	execs    int // of the last level
	stopped  bool
	outcomes map[string]bool
}

// Drive explores every scenario up to max deviations, as far as the time allows.
func Drive(r *lib.R, scs []Scenario, max int) {
	if len(scs) == 0 {
		panic("no scenarios")
	}
	if f := os.Getenv("MC_SCN"); f != "" { // for development
		for i := range scs {
			if !strings.Contains(scs[i].Name, f) {
				scs[i].Max = -1
			}
		}
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	st := make([]state, len(scs))
	for i := range st {
		st[i].done = -1
		st[i].outcomes = map[string]bool{}
	}
	queue := make(chan job, 1<<16)
	results := make(chan answer, 1<<16)
	type death struct {
		j    job
		text string
	}
	deaths := make(chan death, 64)
	var wmu sync.Mutex
	ended := false
	workers := map[*worker]bool{}
	defer func() {
		wmu.Lock()
		defer wmu.Unlock()
		ended = true
		for w := range workers {
			_ = w.cmd.Process.Kill()
			_ = w.cmd.Wait()
		}
	}()
	drop := func(w *worker) {
		wmu.Lock()
		defer wmu.Unlock()
		if workers[w] {
			delete(workers, w)
			_ = w.cmd.Wait()
		}
	}
	for i := 0; i < n; i++ {
		go func() {
			var w *worker
			for j := range queue {
				if w == nil {
					var err error
					wmu.Lock()
					if ended {
						wmu.Unlock()
						return
					}
					w, err = spawn()
					if err == nil {
						workers[w] = true
					}
					wmu.Unlock()
					if err != nil {
						w = nil
						deaths <- death{j, "cannot start a worker: " + err.Error()}
						continue
					}
				}
				var a answer
				err := w.in.Encode(j)
				if err == nil {
					err = w.out.Decode(&a)
				}
				if err != nil {
					drop(w)
					deaths <- death{j, w.err.String()}
					w = nil
					continue
				}
				if a.Hang != "" || scs[j.Scn].Once {
					_ = w.cmd.Process.Kill()
					drop(w)
					w = nil
				}
				results <- a
			}
		}()
	}
	defer close(queue)

	// one level of one scenario: jobs for all shards; repeated when the set of contended fields grew
	type unit struct {
		scn, level, open int
		shards           int
		merged           rt.Result
		actives          map[string]bool
		tries            int
	}
	total := rt.Result{}
	bounds := map[string]any{}
	for level := 0; ; level++ {
		units := map[int]*unit{}
		var todo []int
		for i, s := range scs {
			m := s.Max
			if m == 0 {
				m = max
			}
			if level <= m && !st[i].stopped && (level == 0 || !s.Once && !s.Wide) {
				todo = append(todo, i)
			}
		}
		if len(todo) == 0 {
			break
		}
		start := func(u *unit, left int) {
			u.shards = 1
			if scs[u.scn].Wide {
				u.shards = 8 * n
			} else if st[u.scn].execs > 60 {
				u.shards = 4 * n
			} else if st[u.scn].execs > 12 && len(todo) < 2*n {
				u.shards = n
			}
			u.merged = rt.Result{Complete: true}
			u.actives = map[string]bool{}
			for _, k := range st[u.scn].active {
				u.actives[k] = true
			}
			u.open = u.shards
			now := lib.RealNow()
			rest := r.Remaining()
			d := rest
			if left > 1 {
				d = rest * 3 / time.Duration(left+2)
			}
			for sh := 0; sh < u.shards; sh++ {
				queue <- job{u.scn, level, sh, u.shards, st[u.scn].active, now.Add(d).UnixMilli()}
			}
		}
		// scenarios go through the level one after another when they are big, all at once when they are small
		small := level == 0
		if !small {
			small = true
			for _, i := range todo {
				if st[i].execs > 60 {
					small = false
				}
			}
		}
		next := 0
		launch := func() {
			for next < len(todo) && (small || len(units) < 2) {
				if r.OverBudget() {
					for ; next < len(todo); next++ {
						st[todo[next]].stopped = true
						r.Cap("time budget: " + scs[todo[next]].Name + fmt.Sprintf(" not explored with %d deviations", level))
					}
					return
				}
				u := &unit{scn: todo[next], level: level}
				left := len(todo) - next
				if small {
					left = 1
				}
				units[u.scn] = u
				next++
				start(u, left)
			}
		}
		launch()
		for len(units) > 0 {
			var a answer
			select {
			case a = <-results:
			case d := <-deaths:
				a.Job = d.j
				name := scs[d.j.Scn].Name
				if strings.Contains(d.text, "\t/repo/") && (strings.Contains(d.text, "panic: ") || strings.Contains(d.text, "fatal error: ")) {
					r.Fail("crash:"+name, map[string]any{"scenario": name, "crash": clip(d.text)})
				}
				if os.Getenv("MC_DEBUG") != "" {
					fmt.Println("worker died:", clip(d.text))
				}
				a.Result = rt.Result{Complete: false, Why: "a worker process died: " + lastLine(d.text)}
			}
			u := units[a.Job.Scn]
			if a.Hang != "" {
				name := scs[a.Job.Scn].Name
				r.Fail("hang:"+name, map[string]any{"scenario": name, "hang": "no step in two minutes", "stack": a.Hang})
			}
			if b := a.Result.Bad; b != nil {
				name := scs[a.Job.Scn].Name
				key := name
				if len(b.Crashes) > 0 {
					key += ":" + b.Crashes[0].Msg
				}
				r.Fail(key, map[string]any{"scenario": name, "deviations": a.Job.Budget, "violation": b})
			}
			for _, k := range a.Result.Active {
				u.actives[k] = true
			}
			u.merged.Merge(a.Result)
			u.open--
			if u.open > 0 {
				continue
			}
			s := &st[u.scn]
			if u.shards > 1 && len(u.actives) > len(s.active) && u.tries < 6 && !r.OverBudget() {
				s.active = keys(u.actives)
				u.tries++
				total.Execs += u.merged.Execs
				start(u, 1)
				continue
			}
			if u.shards > 1 && len(u.actives) > len(s.active) {
				u.merged.Complete, u.merged.Why = false, "time budget"
			}
			s.active = keys(u.actives)
			sc := scs[u.scn].Name
			if u.merged.Complete {
				s.done = level
			} else {
				s.stopped = true
				r.Cap(fmt.Sprintf("%s with %d deviations: %s", sc, level, u.merged.Why))
			}
			s.execs = u.merged.Execs
			r.Eval(u.merged.Execs)
			r.AddStates(u.merged.Nodes)
			r.AddTransitions(u.merged.Steps)
			r.AddTraces(u.merged.Replayed)
			for o := range u.merged.Outcomes {
				k := sc + ": " + o
				if !s.outcomes[k] {
					s.outcomes[k] = true
					r.Distinct(k)
					r.Outcome(k)
				}
			}
			if level == 0 {
				r.Sample(map[string]any{"scenario": sc, "schedule": u.merged.Example})
			}
			b := map[string]any{"deviations": s.done, "schedules": u.merged.Execs, "depth": u.merged.Depth, "outcomes": len(s.outcomes)}
			if len(s.active) > 0 {
				b["contended_fields"] = s.active
			}
			bounds[sc] = b
			if os.Getenv("MC_DEBUG") != "" {
				fmt.Printf("%-40s dev %d: %d schedules, depth %d, %d outcomes, complete=%v %s active=%v\n", sc, level, u.merged.Execs, u.merged.Depth, len(s.outcomes), u.merged.Complete, u.merged.Why, s.active)
			}
			delete(units, u.scn)
			launch()
		}
	}
	r.Extra["scenarios"] = bounds
	min := 99
	for i := range st {
		if scs[i].Max >= 0 && !scs[i].Once && !scs[i].Wide && st[i].done < min {
			min = st[i].done
		}
	}
	if min < 99 {
		r.Extra["deviations_completed_in_every_scenario"] = min
	}
}

func keys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func clip(s string) string {
	if i := strings.Index(s, "panic: "); i > 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error: "); i > 0 {
		s = s[i:]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	for _, x := range l {
		if strings.HasPrefix(x, "panic: ") || strings.HasPrefix(x, "fatal error: ") {
			return x
		}
	}
	return l[len(l)-1]
}

// Check describes a property's check of a package.
type Check struct {
	Rule      string
	Setup     func() // in each worker, inside the bubble
	Scenarios func(r *lib.R) []Scenario
	Quick     int // deviations
	Thorough  int
	// Extra runs in the parent after the exploration.
	Extra       func(r *lib.R)
	Assumptions []string
}

// Main is the body of TestMC.
func Main(t *testing.T, checks map[string]Check) {
	id := os.Getenv("MC_PROP")
	c, ok := checks[id]
	if !ok {
		t.Fatalf("no check for %q here", id)
	}
	r := lib.New(id, "model_checking", c.Rule)
	r.Assumptions = c.Assumptions
	if Child() {
		Serve(t, c.Setup, c.Scenarios(r))
		return
	}
	code := r.Run(func() {
		Drive(r, c.Scenarios(r), r.Pick(c.Quick, c.Thorough))
		if c.Extra != nil {
			c.Extra(r)
		}
		if b, err := os.ReadFile(os.Getenv("MC_CONFORM")); err == nil {
			var x map[string]any
			if json.Unmarshal(b, &x) == nil {
				r.Extra["network_stand_in_compared_with_the_real_one"] = x
			}
		}
	})
	if code != 0 {
		os.Exit(code)
	}
}
