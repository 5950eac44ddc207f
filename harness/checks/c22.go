package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/harness/explore"
	"verif/harness/fx"
)

// The things and the package-level variables of the library are all the state
// which concurrent calls share. monitor watches them at every statement.
type monitor struct {
	mu     sync.Mutex
	snap   *fx.Snapshot
	points int
	last   uint64 // image seen last, 0 for the initial one
	writes int    // how often the image was found changed from the last one
	where  string
	// onWrite runs at a point which finds a new image.
	onWrite func(n int)
	// onPoint runs at every point.
	onPoint func(n int)
	off     bool
	// the first and the last point at each statement
	first, final map[int]int
}

func (m *monitor) point(statement int) {
	m.mu.Lock()
	if m.off {
		m.mu.Unlock()
		return
	}
	m.points++
	n := m.points
	if m.first != nil {
		if _, ok := m.first[statement]; !ok {
			m.first[statement] = n
		}
		m.final[statement] = n
	}
	var image uint64
	if !m.snap.Same() {
		image = m.snap.Hash()
		if m.where == "" {
			m.where = m.snap.Changed()
		}
	}
	wrote := image != m.last
	m.last = image
	if wrote {
		m.writes++
	}
	w := m.writes
	m.mu.Unlock()
	if m.onPoint != nil {
		m.onPoint(n)
	}
	if wrote && m.onWrite != nil {
		m.onWrite(w)
	}
}

func (m *monitor) quiet(v bool) {
	m.mu.Lock()
	m.off = v
	m.mu.Unlock()
}

// watched makes private things and a monitor over them and the variables.
func watched(e Env) (*things, *monitor) {
	w := newThings(e)
	freshLibrary()
	return w, &monitor{snap: fx.Snap(append([]any{w}, libGlobals()...)...)}
}

// waitFor waits until a call which runs while another one is suspended has
// returned, or waits for the suspended one (a lock), or takes very long.
func waitFor(done <-chan struct{}, id <-chan string, also <-chan struct{}) {
	head := <-id
	end := time.Now().Add(1500 * time.Millisecond)
	waiting := 0
	buf := make([]byte, 1<<20)
	for time.Now().Before(end) {
		select {
		case <-done:
			return
		case <-also:
			return
		case <-time.After(5 * time.Millisecond):
		}
		s := string(buf[:runtime.Stack(buf, true)])
		k := strings.Index(s, head+" [")
		if k < 0 {
			continue
		}
		state := s[k+len(head)+2:]
		waits := false
		for _, w := range []string{"sync.", "semacquire", "chan ", "select"} {
			waits = waits || strings.HasPrefix(state, w)
		}
		if !waits {
			waiting = 0
		} else if waiting++; waiting >= 2 {
			return
		}
	}
}

// goroutine is how stack dumps call the current goroutine.
func goroutine() string {
	b := make([]byte, 64)
	h := string(b[:runtime.Stack(b, false)])
	return h[:strings.Index(h, " [")]
}

// c22Writers remembers which calls write to shared memory, and their points.
type callFacts struct {
	Points, Writes int
	First, Final   map[int]int // the points at each statement
}

func factsFile(e Env, i int) string {
	if d := os.Getenv("VERIF_ALONE"); d != "" {
		return filepath.Join(d, fmt.Sprint("facts.", e.Seed, ".", i))
	}
	return ""
}

func c22Spaces(e Env) []*explore.Space {
	cs := calls()
	n := len(cs)
	var prepare sync.Once
	prep := func(c *explore.Ctx) {
		if !c.Replaying() {
			prepare.Do(func() { aloneAll(e, n) })
		}
	}
	judge := func(c *explore.Ctx, how string, i int, d string) {
		want := alone(e, i)
		c.Check(digest(d) == want, "different result", "%s: %s gives %s (%s), alone %s", how, cs[i], short([]byte(d)), digest(d), want)
		c.Eval(1)
	}
	facts := make([]callFacts, n)
	var factsMu sync.Mutex
	// observe runs a call alone under the monitor.
	observe := func(i int) (callFacts, string, string) {
		w, m := watched(e)
		m.first, m.final = map[int]int{}, map[int]int{}
		// package-level state may be prepared by the first call
		setHook(m.point)
		_, d := cs[i].do(w)
		m.point(0)
		setHook(nil)
		f := callFacts{m.points, m.writes, m.first, m.final}
		factsMu.Lock()
		facts[i] = f
		factsMu.Unlock()
		if p := factsFile(e, i); p != "" {
			if b, err := json.Marshal(f); err == nil && os.WriteFile(fmt.Sprint(p, ".", os.Getpid()), b, 0o644) == nil {
				os.Rename(fmt.Sprint(p, ".", os.Getpid()), p)
			}
		}
		return f, d, m.where
	}
	// factsOf gives what observe finds, perhaps in another process.
	factsOf := func(i int) callFacts {
		factsMu.Lock()
		f := facts[i]
		factsMu.Unlock()
		if f.Points > 0 {
			return f
		}
		if b, err := os.ReadFile(factsFile(e, i)); err == nil && json.Unmarshal(b, &f) == nil {
			factsMu.Lock()
			facts[i] = f
			factsMu.Unlock()
			return f
		}
		f, _, _ = observe(i)
		return f
	}
	statements := &explore.Space{Name: "statements", Serial: true,
		Bound: fmt.Sprintf("every statement executed by each of the %d calls: the image of all shared memory (the objects and every package-level variable of the library) is compared with the initial image before each statement; where it never differs, every interleaving of any number of such calls is equivalent to running them one after another", n),
		Run: func(c *explore.Ctx) {
			i := c.Choose("call", n)
			c.Shard(i)
			f, d, where := observe(i)
			c.Key(i)
			if i == 0 {
				c.State("initial image")
			}
			c.Step(f.Points)
			judge(c, "under the monitor", i, d)
			if f.Points < 2 {
				panic("harness: no scheduling points in " + cs[i].String())
			}
			c.Note("%s: %d statements, shared memory changed %d times", cs[i], f.Points, f.Writes)
			c.Outcome(f.Writes > 0)
			if f.Writes > 0 {
				c.State(i, where)
				c.Note("first change at %s", where)
			}
		}}
	statements.Variant = "sched"

	// A call which writes shared memory is stopped at each of its writes and
	// every other call runs there.
	const maxWrites = 40
	interrupted := &explore.Space{Name: "interrupted writers", Serial: true,
		Bound: fmt.Sprintf("each call which changes the image of shared memory, suspended after each of its first %d changes, with every call running to completion at that point (one preemption); calls which change nothing need no exploration", maxWrites),
		Run: func(c *explore.Ctx) {
			off := c.Choose("distance to the other call", n) // first, so that a limit leaves no writer out
			a := c.Choose("suspended call", n)
			c.Shard(a)
			fa := factsOf(a)
			if fa.Writes == 0 {
				c.Skip()
			}
			prep(c)
			at := 1 + c.Choose("at its write", min(fa.Writes, maxWrites))
			b := (a + n - 1 - off) % n
			c.Key(a, at, b)
			w, m := watched(e)
			var db string
			done := make(chan struct{})
			ran := false
			m.onWrite = func(k int) {
				if k != at || ran {
					return
				}
				ran = true
				m.quiet(true)
				id := make(chan string, 1)
				go func() {
					id <- goroutine()
					_, db = cs[b].do(w)
					close(done)
				}()
				waitFor(done, id, nil)
			}
			setHook(m.point)
			_, da := cs[a].do(w)
			m.onWrite = nil
			m.quiet(true)
			setHook(nil)
			c.Step(2)
			if !ran {
				return
			}
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				c.Fail("deadlock", "%s does not return when it starts while %s is suspended at its change %d of shared memory", cs[b], cs[a], at)
			}
			how := fmt.Sprintf("%s runs while %s is suspended at its change %d of shared memory", cs[b], cs[a], at)
			judge(c, how, b, db)
			judge(c, how, a, da)
			_, d := cs[a].do(w)
			judge(c, "after "+how, a, d)
		}}
	interrupted.Variant, interrupted.Limit = "sched", time.Duration(Pick(e, 150, 1800))*time.Second

	// Two preemptions: b runs up to a statement, then a up to one of its
	// writes or to its end, then b to its end, then a to its end. A place is
	// the first or last time b comes to a statement of the source.
	type place struct{ statement, call, point int }
	var places []place
	var writers []int
	var survey sync.Once
	each := Pick(e, 4, 1000)
	const maxAt = 3
	look := func() {
		at := map[int][]place{}
		for i := range n {
			f := factsOf(i)
			if f.Writes > 0 {
				writers = append(writers, i)
			}
			for s, p := range f.First {
				at[s] = append(at[s], place{s, i, p})
				if q := f.Final[s]; q != p {
					at[s] = append(at[s], place{s, i, q})
				}
			}
		}
		for s := range 1 << 20 {
			l, ok := at[s]
			if !ok {
				if len(at) == 0 {
					break
				}
				continue
			}
			delete(at, s)
			for k := range min(each, len(l)) {
				places = append(places, l[k*len(l)/min(each, len(l))])
			}
		}
	}
	twice := &explore.Space{Name: "interleaved writers", Serial: true,
		Bound: fmt.Sprintf("each call which changes shared memory starts while another call is suspended at a statement and runs to its end or is itself suspended after one of its first %d changes while the other one finishes (two preemptions); for every statement of the library up to %d places, each the first or last time some call comes to it", maxAt, each),
		Run: func(c *explore.Ctx) {
			for i := range n {
				if factsOf(i).Writes > 0 {
					break
				}
				if i == n-1 {
					c.Skip()
				}
			}
			survey.Do(look)
			prep(c)
			// the rounds come first so that a limit leaves no place out
			rounds := len(writers) * (maxAt + 1)
			r := rounds - 1 - c.Choose("round", rounds)
			k := c.Choose("place", len(places))
			c.Shard(k)
			x := places[k]
			b, pt := x.call, x.point
			a := writers[(k+r)%len(writers)]
			at := (r / len(writers)) // 0: to its end
			if at > factsOf(a).Writes {
				c.Skip()
			}
			c.Key(a, at, x)
			w, m := watched(e)
			var da, db string
			aDone, aResume, aPaused := make(chan struct{}), make(chan struct{}), make(chan struct{})
			bDone, bResumes := make(chan struct{}), make(chan struct{})
			phase := 0
			m.onPoint = func(p int) {
				if phase != 0 || p != pt {
					return
				}
				phase = 1
				m.mu.Lock()
				m.writes = 0
				m.mu.Unlock()
				id := make(chan string, 1)
				go func() {
					id <- goroutine()
					_, da = cs[a].do(w)
					close(aDone)
				}()
				waitFor(aDone, id, aPaused)
				phase = 2
				m.quiet(true)
				close(bResumes)
			}
			m.onWrite = func(p int) {
				if phase == 1 && p == at {
					close(aPaused)
					<-aResume
				}
			}
			setHook(m.point)
			id := make(chan string, 1)
			go func() {
				id <- goroutine()
				_, db = cs[b].do(w)
				close(bDone)
			}()
			select {
			case <-bDone:
			case <-bResumes:
				waitFor(bDone, id, nil) // a may hold a lock which b needs
			}
			close(aResume)
			late := time.After(20 * time.Second)
			both := true
			select {
			case <-bDone:
			case <-late:
				both = false
			}
			m.quiet(true)
			setHook(nil)
			if phase == 0 {
				return
			}
			select {
			case <-aDone:
			case <-late:
				both = false
			}
			if !both {
				c.Fail("deadlock", "%s and %s do not both return", cs[a], cs[b])
			}
			c.Step(4)
			how := fmt.Sprintf("%s suspended at statement %d, %s running up to its change %d of shared memory (0: to its end), then the rest of both", cs[b], pt, cs[a], at)
			judge(c, how, b, db)
			judge(c, how, a, da)
		}}
	twice.Variant, twice.Limit = "sched", time.Duration(Pick(e, 100, 1800))*time.Second

	// The race detector: calls without any synchronisation between them.
	together := func(c *explore.Ctx, ids []int, how string) {
		w := newThings(e)
		freshLibrary()
		ds := make([]string, len(ids))
		before := races()
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g, i := range ids {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				_, ds[g] = cs[i].do(w)
			}()
		}
		close(start)
		wg.Wait()
		c.Step(len(ids))
		if races() > before {
			c.Fail("data race", "%s: %s", how, raceReport())
		}
		for g, i := range ids {
			judge(c, how, i, ds[g])
		}
	}
	all := &explore.Space{Name: "race detector, all at once", Serial: true,
		Bound: fmt.Sprintf("all %d calls twice at the same time on one set of shared objects, in several starting orders, under the happens-before race detector: every pair of calls is unordered", n),
		Run: func(c *explore.Ctx) {
			prep(c)
			r := c.Choose("rotation", Pick(e, 3, 30))
			back := c.Bool("reversed")
			c.Shard(2*r + fx.B2I(back))
			ids := make([]int, 0, 2*n)
			for k := range 2 * n {
				i := (k + r*n*2/7) % n
				if back {
					i = n - 1 - i
				}
				ids = append(ids, i)
			}
			c.Key(r, back)
			together(c, ids, "all calls at the same time")
		}}
	all.Variant = "race"
	same := &explore.Space{Name: "race detector, one call twice", Serial: true,
		Bound: "every call at the same time as itself and as the other argument set of the same operation",
		Run: func(c *explore.Ctx) {
			i := c.Choose("call", n)
			c.Shard(i)
			c.Key(i)
			together(c, []int{i, i, i ^ 1}, cs[i].String()+" three times at once")
		}}
	same.Variant = "race"
	out := []*explore.Space{statements, interrupted, twice, same, all}
	if e.Thorough {
		out = append(out, &explore.Space{Name: "race detector, pairs", Serial: true, Variant: "race",
			Bound: "all pairs of operations, first argument sets, at the same time",
			Run: func(c *explore.Ctx) {
				prep(c)
				i := 2 * c.Choose("first", n/2)
				c.Shard(i / 2)
				j := i + 2*c.Choose("second", n/2-i/2)
				c.Key(i, j)
				together(c, []int{i, j, i, j}, fmt.Sprintf("%s and %s at the same time", cs[i], cs[j]))
			}})
	}
	return out
}

// plainExecutable is the executable without instrumentation.
func plainExecutable() string {
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	p := filepath.Join(filepath.Dir(exe), "vmc")
	if _, err := os.Stat(p); err != nil {
		return exe
	}
	return p
}

func init() {
	register(&Check{ID: "C22", Level: "model_checking", Variants: []string{"sched", "race"}, Shards: 8,
		Rule:   "a call, or an interleaving of calls identified by who is suspended where",
		Assume: []string{"statements of the library and calls into its dependencies are atomic in the schedules; the race detector covers what happens inside them", "the catalogue of operations stands for the library", "package-level variables of the library's own packages are watched; those of its dependencies only by the race detector"},
		Spaces: c22Spaces})
}
