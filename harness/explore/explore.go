// Package explore is a stateless model checker: a space is a deterministic
// function of the choices it asks for, and the explorer runs it once for every
// possible sequence of choices (depth first, all alternatives of every choice
// point, deviation-bounded where the space says so). Nothing is sampled.
package explore

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Space is one finite set of executions.
type Space struct {
	Name  string
	Bound string
	// MaxDev bounds the number of deviations (Dev choices other than 0) in an execution.
	MaxDev int
	// Serial spaces run one execution at a time.
	Serial bool
	// Variant names the build of the harness which explores the space.
	Variant string
	// Limit ends the exploration early (the space is then reported incomplete).
	Limit time.Duration
	Run   func(c *Ctx)
}

type choice struct {
	label string
	n, v  int
	dev   bool
}

type failure struct {
	sig, msg string
}

type skip struct{}
type stop struct{}

// Ctx is one execution.
type Ctx struct {
	sp       *Space
	prefix   []int
	choices  []choice
	devUsed  int
	fails    []failure
	skipped  bool
	foreign  bool // belongs to another process
	notes    []string
	verbose  bool
	evals    int
	trans    int
	states   []uint64
	keys     []uint64
	outcomes []uint64
	replay   bool
	ex       *Explorer
}

func (c *Ctx) pick(label string, n int, dev bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness: choice %q without alternatives", label))
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("harness: replay diverged: choice %d (%s) is %d of %d", i, label, v, n))
		}
	}
	c.choices = append(c.choices, choice{label, n, v, dev})
	return v
}

// Choose picks one of n alternatives; every one is explored.
func (c *Ctx) Choose(label string, n int) int { return c.pick(label, n, false) }

// Bool picks false or true.
func (c *Ctx) Bool(label string) bool { return c.pick(label, 2, false) == 1 }

// Dev picks one of n alternatives where 0 is the default and any other is a
// deviation; at most MaxDev deviations occur in one execution.
func (c *Ctx) Dev(label string, n int) int {
	if c.devUsed >= c.sp.MaxDev {
		n = 1
	}
	v := c.pick(label, n, true)
	if v != 0 {
		c.devUsed++
	}
	return v
}

// Fail records a violation of the property and ends the execution.
func (c *Ctx) Fail(sig, format string, args ...any) {
	c.fails = append(c.fails, failure{sig, fmt.Sprintf(format, args...)})
	panic(stop{})
}

// Check fails unless ok.
func (c *Ctx) Check(ok bool, sig, format string, args ...any) {
	if !ok {
		c.Fail(sig, format, args...)
	}
}

// Skip ends an execution which the space does not contain.
func (c *Ctx) Skip() {
	c.skipped = true
	panic(skip{})
}

// Shard ends an execution which another process explores.
func (c *Ctx) Shard(i int) {
	if n, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS")); n > 1 && !c.replay {
		if k, _ := strconv.Atoi(os.Getenv("VERIF_SHARD")); i%n != k {
			c.foreign = true
			panic(skip{})
		}
	}
}

// Note records a line for the replay output and the evidence samples.
func (c *Ctx) Note(format string, args ...any) {
	if len(c.notes) < 64 {
		c.notes = append(c.notes, fmt.Sprintf(format, args...))
	}
}

func h64(b ...any) uint64 {
	h := fnv.New64a()
	for _, x := range b {
		switch v := x.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

// Eval counts n oracle comparisons against the reference.
func (c *Ctx) Eval(n int) { c.evals += n }

// Key declares the canonical input of this evaluation (for counting distinct ones).
func (c *Ctx) Key(parts ...any) { c.keys = append(c.keys, h64(parts...)) }

// State records a canonical state that was reached, Step a transition that was taken.
func (c *Ctx) State(parts ...any) { c.states = append(c.states, h64(parts...)) }
func (c *Ctx) Step(n int)         { c.trans += n }

// Outcome records an observation class.
func (c *Ctx) Outcome(parts ...any) { c.outcomes = append(c.outcomes, h64(parts...)) }

// Replaying tells whether this is a replay.
func (c *Ctx) Replaying() bool { return c.replay }

// First tells whether the state was not seen before by this run (always true in replays).
func (c *Ctx) First(parts ...any) bool {
	if c.replay || c.ex == nil {
		return true
	}
	k := h64(c.sp.Name) ^ h64(parts...)
	_, loaded := c.ex.visited.LoadOrStore(k, struct{}{})
	return !loaded
}

// Violation is a failing execution.
type Violation struct {
	Space   string   `json:"space"`
	Choices []int    `json:"choices"`
	Labels  []string `json:"labels"`
	Sig     string   `json:"signature"`
	Message string   `json:"message"`
	Notes   []string `json:"notes,omitempty"`
	Repro   string   `json:"reproduction,omitempty"`
}

// Sample is one execution written out.
type Sample struct {
	Space   string   `json:"space"`
	Choices []string `json:"choices"`
	Notes   []string `json:"notes,omitempty"`
}

// SpaceStats is what was covered of one space.
type SpaceStats struct {
	Name       string  `json:"name"`
	Bound      string  `json:"bound"`
	MaxDev     int     `json:"max_deviations,omitempty"`
	Executions int64   `json:"executions"`
	Skipped    int64   `json:"skipped"`
	Complete   bool    `json:"complete"`
	Seconds    float64 `json:"seconds"`
	Outcomes   int     `json:"distinct_outcomes"`
}

// Explorer explores spaces.
type Explorer struct {
	Workers  int
	Deadline time.Time
	Inflight func(worker int, space string, choices []int)

	Execs, Evals, Trans int64
	mu                  sync.Mutex
	States              map[uint64]struct{}
	Keys                map[uint64]struct{}
	visited             sync.Map
	Violations          []Violation
	Samples             []Sample
	Stats               []SpaceStats
	Incomplete          bool
	started             [64]int64
}

// Start returns when the current execution of each worker began (unix ns, 0 idle).
func (e *Explorer) Start(w int) int64 {
	if w >= len(e.started) {
		return 0
	}
	return atomic.LoadInt64(&e.started[w])
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "runtime/debug") || strings.Contains(l, "explore.") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if strings.HasPrefix(lines[i+1], "\t") && !strings.HasPrefix(l, "\t") {
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(loc, " +0x"); k > 0 {
				loc = loc[:k]
			}
			fn := l
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			out = append(out, fn+" "+loc)
			if len(out) >= 10 {
				break
			}
		}
	}
	return strings.Join(out, " | ")
}

func run(sp *Space, prefix []int, replay bool, ex *Explorer) (c *Ctx) {
	c = &Ctx{sp: sp, prefix: prefix, replay: replay, ex: ex}
	defer func() {
		r := recover()
		switch v := r.(type) {
		case nil, skip, stop:
		default:
			msg := fmt.Sprint(v)
			if strings.HasPrefix(msg, "harness:") {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR in", sp.Name, c.vec(), msg)
				panic(v)
			}
			st := trimStack(debug.Stack())
			c.fails = append(c.fails, failure{"panic", "panic: " + msg + " at " + st})
		}
	}()
	sp.Run(c)
	return
}

func (c *Ctx) vec() []int {
	v := make([]int, len(c.choices))
	for i, x := range c.choices {
		v[i] = x.v
	}
	return v
}

func (c *Ctx) labels() []string {
	v := make([]string, len(c.choices))
	for i, x := range c.choices {
		v[i] = fmt.Sprintf("%s=%d/%d", x.label, x.v, x.n)
	}
	return v
}

// Replay runs one execution.
func Replay(sp *Space, choices []int) (*Violation, []string, []string) {
	c := run(sp, choices, true, nil)
	if len(c.fails) == 0 {
		return nil, c.labels(), c.notes
	}
	return &Violation{Space: sp.Name, Choices: c.vec(), Labels: c.labels(), Sig: c.fails[0].sig, Message: c.fails[0].msg, Notes: c.notes}, c.labels(), c.notes
}

func cost(v []int) int {
	n := 0
	for _, x := range v {
		if x != 0 {
			n += 1000
		}
		n += min(x, 99)
	}
	return n
}

// Explore runs every execution of the space.
func (e *Explorer) Explore(sp *Space) {
	t0 := time.Now()
	if e.States == nil {
		e.States = map[uint64]struct{}{}
		e.Keys = map[uint64]struct{}{}
	}
	workers := e.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	if sp.Serial {
		workers = 1
	}
	workers = min(workers, len(e.started))
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{nil}
	active := 0
	stopAll := false
	var execs, skipped int64
	outcomes := map[uint64]struct{}{}
	viol := map[string]*Violation{}
	nsamples := 0
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && active > 0 && !stopAll {
					cond.Wait()
				}
				if len(stack) == 0 || stopAll {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if !e.Deadline.IsZero() && time.Now().After(e.Deadline) || sp.Limit > 0 && time.Since(t0) > sp.Limit {
					stopAll = true
					e.Incomplete = true
					mu.Unlock()
					cond.Broadcast()
					return
				}
				prefix := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()

				if e.Inflight != nil {
					e.Inflight(w, sp.Name, prefix)
				}
				atomic.StoreInt64(&e.started[w], time.Now().UnixNano())
				c := run(sp, prefix, false, e)
				atomic.StoreInt64(&e.started[w], 0)

				mu.Lock()
				active--
				if !c.foreign {
					execs++
				}
				if c.foreign {
				} else if c.skipped {
					skipped++
				} else {
					e.Evals += int64(max(c.evals, 1))
					e.Trans += int64(max(c.trans, 1))
					if len(c.keys) == 0 {
						c.keys = append(c.keys, h64(sp.Name, fmt.Sprint(c.vec())))
					}
					if len(c.states) == 0 {
						c.states = c.keys
					}
					for _, k := range c.keys {
						e.Keys[k] = struct{}{}
					}
					for _, k := range c.states {
						e.States[k] = struct{}{}
					}
					for _, k := range c.outcomes {
						outcomes[k] = struct{}{}
					}
					if nsamples < 2 || (nsamples < 4 && execs%997 == 0) {
						nsamples++
						e.Samples = append(e.Samples, Sample{sp.Name, c.labels(), c.notes})
					}
				}
				if len(c.fails) > 0 {
					v := Violation{Space: sp.Name, Choices: c.vec(), Labels: c.labels(), Sig: c.fails[0].sig, Message: c.fails[0].msg, Notes: c.notes}
					if o := viol[v.Sig]; o == nil || cost(v.Choices) < cost(o.Choices) {
						viol[v.Sig] = &v
					}
					if len(viol) >= 4 || execs > 20000 {
						stopAll = true
					}
				}
				for i := len(c.choices) - 1; i >= len(prefix); i-- {
					for alt := 1; alt < c.choices[i].n; alt++ {
						p := make([]int, i+1)
						for j := 0; j < i; j++ {
							p[j] = c.choices[j].v
						}
						p[i] = alt
						stack = append(stack, p)
					}
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	e.Execs += execs - skipped
	sigs := make([]string, 0, len(viol))
	for s := range viol {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		v := viol[s]
		n := 0
		for i := 0; i < 5; i++ {
			if r, _, _ := Replay(sp, v.Choices); r != nil {
				n++
				if r.Sig == v.Sig {
					v.Message, v.Notes = r.Message, r.Notes
				}
			}
		}
		v.Repro = fmt.Sprintf("%d of 5 isolated re-runs fail", n)
		e.Violations = append(e.Violations, *v)
	}
	e.Stats = append(e.Stats, SpaceStats{Name: sp.Name, Bound: sp.Bound, MaxDev: sp.MaxDev, Executions: execs - skipped, Skipped: skipped,
		Complete: !stopAll, Seconds: float64(time.Since(t0).Milliseconds()) / 1000, Outcomes: len(outcomes)})
}
