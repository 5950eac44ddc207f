package checks

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/zk"

	"verif/harness/explore"
	"verif/harness/fx"
)

// call is one operation of the catalogue with one of its argument sets.
type call struct {
	op operationDef
	v  int
}

func (x call) String() string { return fmt.Sprintf("%s/%d", x.op.name, x.v) }

func calls() []call {
	var out []call
	for _, o := range catalogue() {
		out = append(out, call{o, 0}, call{o, 1})
	}
	return out
}

// do runs a call and describes everything it returned.
func (x call) do(w *things) (r []any, desc string) {
	defer func() {
		if p := recover(); p != nil {
			if s := fmt.Sprint(p); strings.HasPrefix(s, "harness:") {
				panic(p)
			} else {
				r, desc = nil, "panic: "+s
			}
		}
	}()
	r = x.op.run(w, x.v)
	return r, fx.Fingerprint(r)
}

func digest(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%d:%016x", len(s), h.Sum64())
}

// Alone prints the digest of one call made in a process of its own.
func Alone(seed int64, arg string) {
	i, err := strconv.Atoi(arg)
	if err != nil {
		panic("harness: " + arg)
	}
	_, d := calls()[i].do(newThings(Env{Seed: seed}))
	json.NewEncoder(os.Stdout).Encode(digest(d))
}

type aloneResult struct {
	once   sync.Once
	digest string
}

var aloneResults sync.Map

// alone is the result of a call in a process which makes no other call.
func alone(e Env, i int) string {
	v, _ := aloneResults.LoadOrStore(fmt.Sprint(e.Seed, "/", i), &aloneResult{})
	a := v.(*aloneResult)
	a.once.Do(func() {
		share := ""
		if d := os.Getenv("VERIF_ALONE"); d != "" {
			share = filepath.Join(d, fmt.Sprint(e.Seed, ".", i))
			if b, err := os.ReadFile(share); err == nil {
				a.digest = string(b)
				return
			}
		}
		exe := plainExecutable()
		var out []byte
		var err error
		for try := 0; try < 3; try++ {
			cmd := exec.Command(exe, "alone", strconv.FormatInt(e.Seed, 10), strconv.Itoa(i))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "VERIF_VARIANT=")
			if out, err = cmd.Output(); err == nil {
				break
			}
		}
		if err != nil || json.Unmarshal(out, &a.digest) != nil {
			a.digest = fmt.Sprint("no result: ", err)
		}
		if share != "" {
			tmp := fmt.Sprint(share, ".", os.Getpid())
			if os.WriteFile(tmp, []byte(a.digest), 0o644) == nil {
				os.Rename(tmp, share)
			}
		}
	})
	return a.digest
}

// aloneAll computes the results of all calls, several at a time; processes
// which share the exploration share this work.
func aloneAll(e Env, n int) {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	shards = max(shards, 1)
	var wg sync.WaitGroup
	next := make(chan int)
	for range 8 / min(shards, 8) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				alone(e, i)
			}
		}()
	}
	for i := shard; i < n; i += shards {
		next <- i
	}
	close(next)
	wg.Wait()
}

// history checks that calls made one after another on the same things give
// what each gives alone and leave the things as they were.
type history struct {
	c    *explore.Ctx
	e    Env
	cs   []call
	w    *things
	snap *fx.Snapshot
	past []string
	res  [][]any
	desc []string
}

func newHistory(c *explore.Ctx, e Env, cs []call) *history {
	h := &history{c: c, e: e, cs: cs, w: newThings(e)}
	h.snap = fx.Snap(h.w)
	return h
}

// call makes a call; it tells whether the memory of the things is unchanged.
func (h *history) call(i int) bool {
	x := h.cs[i]
	r, d := x.do(h.w)
	want := alone(h.e, i)
	h.c.Check(digest(d) == want, "different result", "after %q, %s does not give what it gives alone: %s (%s, alone %s)", h.past, x, short([]byte(d)), digest(d), want)
	if !h.snap.Same() {
		p := h.snap.VisibleChange()
		h.c.Check(p == "", "arguments changed", "after %q, %s changes its arguments (%s)", h.past, x, p)
	}
	h.past = append(h.past, x.String())
	h.res = append(h.res, r)
	h.desc = append(h.desc, d)
	h.c.Step(1)
	h.c.Eval(2)
	return h.snap.Same()
}

// results checks that what earlier calls returned has not changed since.
func (h *history) results() {
	for i, r := range h.res {
		if r == nil {
			continue
		}
		h.c.Check(fx.Fingerprint(r) == h.desc[i], "result changed later", "after %q, what %s returned has changed", h.past, h.past[i])
	}
}

func c21Spaces(e Env) []*explore.Space {
	cs := calls()
	n := len(cs)
	var prepare sync.Once
	prep := func(c *explore.Ctx) {
		if !c.Replaying() {
			prepare.Do(func() { aloneAll(e, n) })
		}
	}
	depth := Pick(e, 3, 4)
	closure := &explore.Space{Name: "closure",
		Bound: fmt.Sprintf("all sequences of the %d calls (%d operations, 2 argument sets) over one set of shared objects: a sequence is extended while the calls so far changed any memory reachable from the objects, to depth %d; where no call changes memory the initial image is the only reachable state and sequences of every length are covered", n, n/2, depth),
		Run: func(c *explore.Ctx) {
			prep(c)
			h := newHistory(c, e, cs)
			c.State("initial")
			for d := 0; d < depth; d++ {
				i := c.Choose(fmt.Sprint("call ", d+1), n)
				c.Key(fmt.Sprint(h.past, i))
				same := h.call(i)
				if same {
					h.call(i)
					h.results()
					if h.snap.Same() {
						c.Outcome("unchanged")
						return // the initial state again
					}
				}
				c.State(h.snap.Hash())
				c.Outcome("changed")
				c.Note("memory changed at %s", h.snap.Changed())
			}
		}}
	pairs := &explore.Space{Name: "pairs",
		Bound: fmt.Sprintf("all ordered pairs of the %d calls on one set of shared objects", n),
		Run: func(c *explore.Ctx) {
			prep(c)
			i := c.Choose("first", n)
			j := c.Choose("second", n)
			if !e.Thorough && cs[i].v == 1 && cs[j].v == 1 && i/2 != j/2 {
				c.Skip()
			}
			c.Key(i, j)
			h := newHistory(c, e, cs)
			h.call(i)
			h.call(j)
			h.results()
		}}
	spaces := []*explore.Space{closure, cloneSpace(e), assignSpace(e), pairs}
	if e.Thorough {
		spaces = append(spaces, &explore.Space{Name: "triples",
			Bound: fmt.Sprintf("all ordered triples of the %d operations with their first argument set", n/2),
			Run: func(c *explore.Ctx) {
				prep(c)
				h := newHistory(c, e, cs)
				for d := range 3 {
					h.call(2 * c.Choose(fmt.Sprint("call ", d+1), n/2))
				}
				h.results()
			}})
	}
	return spaces
}

// cloner makes an object (by pointer) and clones it.
type cloner struct {
	name  string
	make  func(w *things) any
	clone func(x any) any
}

func cloners() []cloner {
	type commitment = poly.PolynomialCommitment
	hold := func(x commitment) any { return &x }
	var out []cloner
	for i := range 4 {
		out = append(out, cloner{fmt.Sprint("commitment ", i), func(w *things) any { return hold(w.Com[i]) },
			func(x any) any { return hold((*x.(*commitment)).Clone()) }})
	}
	out = append(out,
		cloner{"scalar", func(w *things) any { return &w.S[1] }, func(x any) any { s := (*x.(*curve.EccScalar)).Clone(); return &s }},
		cloner{"point", func(w *things) any { return &w.P[1] }, func(x any) any { p := (*x.(*curve.EccPoint)).Clone(); return &p }},
		cloner{"single ciphertext", func(w *things) any { return w.Single }, func(x any) any { return x.(*mega.MEGaCiphertextSingle).Clone() }},
		cloner{"proof of equal logarithms", func(w *things) any { return w.Dlog[0] }, func(x any) any { return x.(*zk.ProofOfDLogEquivalence).Clone() }},
		cloner{"proof of equal openings", func(w *things) any { return w.Eq[0] }, func(x any) any { return x.(*zk.ProofOfEqualOpenings).Clone() }},
		cloner{"proof of product", func(w *things) any { return w.Prod[0] }, func(x any) any { return x.(*zk.ProofOfProduct).Clone() }},
		cloner{"resharing proof", func(w *things) any { return &dealings.MaskedResharingProof{ProofOfEqualOpenings: w.Eq[0]} },
			func(x any) any { return x.(dealings.ZkProof).Clone() }},
		cloner{"product proof", func(w *things) any { return &dealings.ProductProof{ProofOfProduct: w.Prod[0]} },
			func(x any) any { return x.(dealings.ZkProof).Clone() }},
	)
	return out
}

// leafChange changes one leaf of an object, in place or by replacing it.
const leafChanges = 5

func leafChange(l fx.Leaf, way int) {
	if l.Point {
		p := l.Pt()
		switch way {
		case 0:
			p.Double(p)
		case 1:
			p.AddPoints(p, curve.Point.GeneratorG(fx.K))
		case 2:
			p.ScalarMul(p, curve.Scalar.FromUint64(fx.K, 5))
		case 3:
			p.Assign(curve.Point.GeneratorH(fx.K))
		case 4:
			l.SetPoint(curve.Point.GeneratorG(fx.K))
		}
		return
	}
	s := l.Scalar()
	switch way {
	case 0:
		s.Negate(s)
	case 1:
		s.Add(s, curve.Scalar.One(fx.K))
	case 2:
		s.Mul(s, curve.Scalar.FromUint64(fx.K, 5))
	case 3:
		s.Assign(curve.Scalar.FromUint64(fx.K, 77))
	case 4:
		l.SetScalar(curve.Scalar.FromUint64(fx.K, 78))
	}
}

func leafValues(x any) []string {
	var out []string
	for _, l := range fx.Leaves(x) {
		if l.Point {
			out = append(out, fmt.Sprintf("%x", l.Pt().Serialize()))
		} else {
			out = append(out, fmt.Sprintf("%x", l.Scalar().Serialize()))
		}
	}
	return out
}

func cloneSpace(e Env) *explore.Space {
	return &explore.Space{Name: "clones", Bound: "every type with Clone; clone of the original and of the clone; every one or two changes of any scalar or point of any of the three, in place (double/negate, add, multiply, assign) or replacing it",
		Run: func(c *explore.Ctx) {
			ks := cloners()
			k := ks[c.Choose("kind", len(ks))]
			w := newThings(e)
			objs := []any{k.make(w)}
			objs = append(objs, k.clone(objs[0]))
			objs = append(objs, k.clone(objs[1]))
			names := []string{"the original", "the clone", "the clone of the clone"}
			vals := [][]string{leafValues(objs[0]), leafValues(objs[1]), leafValues(objs[2])}
			if len(vals[0]) == 0 {
				panic("harness: nothing to change in " + k.name)
			}
			for i := 1; i < 3; i++ {
				c.Check(fmt.Sprint(vals[i]) == fmt.Sprint(vals[0]), "clone differs", "%s of %s has other contents", names[i], k.name)
			}
			for r := 0; r < 1+c.Choose("changes", 2); r++ {
				s := c.Choose("object", 3)
				ls := fx.Leaves(objs[s])
				l := c.Choose("place", len(ls))
				way := c.Choose("way", leafChanges)
				if r == 1 && !e.Thorough && way != 1 && way != 4 {
					c.Skip()
				}
				c.Key(k.name, r, s, l, way)
				leafChange(ls[l], way)
				c.Step(1)
				now := leafValues(objs[s])
				for j := range now {
					if j != l {
						c.Check(now[j] == vals[s][j], "changes spread", "changing %s of %s (%s) changes another part of it", ls[l].Path, names[s], k.name)
					}
				}
				vals[s] = now
				for i := range objs {
					c.Check(fmt.Sprint(leafValues(objs[i])) == fmt.Sprint(vals[i]), "clone shares", "%s: changing %s of %s changes %s", k.name, ls[l].Path, names[s], names[i])
				}
				c.Eval(3)
			}
		}}
}

// assignSpace: Assign copies; the two objects stay independent.
func assignSpace(e Env) *explore.Space {
	return &explore.Space{Name: "assignments", Bound: "Assign between scalars, between points and between field elements, then changes of either side",
		Run: func(c *explore.Ctx) {
			w := newThings(e)
			way := c.Choose("way", 3)
			left := c.Bool("change the receiver")
			kind := c.Choose("kind", 3)
			c.Key(kind, way, left)
			var a, b func() string
			var chg func(left bool)
			switch kind {
			case 0:
				x, y := w.S[0], w.S[1]
				x.Assign(y)
				a, b = func() string { return fmt.Sprintf("%x", x.Serialize()) }, func() string { return fmt.Sprintf("%x", y.Serialize()) }
				chg = func(left bool) {
					z := y
					if left {
						z = x
					}
					switch way {
					case 0:
						z.Negate(z)
					case 1:
						z.Add(z, w.S[2])
					case 2:
						z.Mul(z, w.S[3])
					}
				}
			case 1:
				x, y := w.P[0], w.P[1]
				x.Assign(y)
				a, b = func() string { return fmt.Sprintf("%x", x.Serialize()) }, func() string { return fmt.Sprintf("%x", y.Serialize()) }
				chg = func(left bool) {
					z := y
					if left {
						z = x
					}
					switch way {
					case 0:
						z.Double(z)
					case 1:
						z.AddPoints(z, w.P[2])
					case 2:
						z.ScalarMul(z, w.S[2])
					}
				}
			default:
				x, y := w.F[0], w.F[1]
				x.Assign(y)
				a, b = func() string { return fmt.Sprintf("%x", x.AsBytes()) }, func() string { return fmt.Sprintf("%x", y.AsBytes()) }
				chg = func(left bool) {
					z := y
					if left {
						z = x
					}
					switch way {
					case 0:
						z.Negate(z)
					case 1:
						z.Add(z, w.F[2])
					case 2:
						z.Square(z)
					}
				}
			}
			was := b()
			c.Check(a() == was, "assign", "after Assign the receiver is %s, the argument %s", a(), was)
			chg(left)
			c.Step(1)
			if left {
				c.Check(b() == was && a() != was, "assign shares", "changing the receiver of Assign changes the argument")
			} else {
				c.Check(a() == was && b() != was, "assign shares", "changing the argument of Assign changes the receiver")
			}
			c.Eval(2)
		}}
}

func init() {
	register(&Check{ID: "C21", Level: "model_checking",
		Rule:   "a call history (or a clone and its changes) which differs from all others in a call, an argument set or a change",
		Assume: []string{"the catalogue of operations (all exported ones which take shared objects) stands for the library", "memory behind unexported fields may change as long as no operation of the catalogue computes anything different"},
		Spaces: c21Spaces})
}
