package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/tidwall/btree"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C07",
		Level: "model_checking",
		Rule: "one execution is one dealing with one set of (possibly altered) openings used to recover one share, or one complete combined opening; the result is compared with the " +
			"dealer's polynomial; distinct means distinct (dealing, openings, share index) combinations",
		Assume: []string{"nobody knows a discrete logarithm between the generators"},
		Spaces: c07Spaces,
	})
}

// scripted is a dealing with chosen receivers corrupted.
func scriptedDealing(e Env, o operation, label string, t int, ns []fx.Node, dealer int, ad []byte, bad func(i int) bool) (*ref.Dealing, *anyDealing) {
	r := fx.RefDeal(o.secret(dealer), label, t, ns, dealer, ad)
	d := fromRef(r)
	plain := r.Plain(len(ns))
	any := false
	for i := range plain {
		if bad(i) {
			any = true
			plain[i] = append([]*big.Int{}, plain[i]...)
			plain[i][len(plain[i])-1] = ref.Add(plain[i][len(plain[i])-1], ref.I(1))
		}
	}
	if any {
		_, rs := fx.LSeed(label)
		d.cipher = ref.Encrypt(d.cipher.Kind, rs.Derive("corrupt"), plain, fx.RPKs(ns), dealer, ad)
	}
	return r, d
}

func c07Spaces(e Env) []*explore.Space {
	var sp []*explore.Space
	nMax := Pick(e, 5, 7)
	sp = append(sp, &explore.Space{
		Name: "openers", Bound: fmt.Sprintf("both commitment kinds x thresholds 1..4 x %d receivers; every receiver's share recovered from every subset of the others' (and of all) openings; openings by value or reference", nMax),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			t := 1 + c.Choose("threshold", 4)
			r, com := shapeOf(e, kind, t)
			subs := fx.Subsets(nMax, 0, nMax)
			s := subs[c.Choose("openers", len(subs))]
			target := c.Choose("share of", nMax+1)
			ptr := c.Bool("by reference")
			om := map[int]poly.CommitmentOpening{}
			for _, i := range s {
				om[i] = fx.Opening(r.Share(i))
				if ptr {
					om[i] = fx.OpeningPtr(r.Share(i))
				}
			}
			c.Key(kind, t, s, target, ptr)
			bm := fx.OpenMap(om)
			got, err := dealings.ReconstructShareFromOpenings(&dealings.IDkgDealingInternal{Commitment: com}, bm, common.NodeIndex(target))
			what := fmt.Sprintf("%s sharing with threshold %d: share of %d from openings of %v", kindNames[kind], t, target, s)
			if len(s) < t {
				c.Check(err != nil, "too few openings", "%s: %s", what, fx.ShowOp(got))
			} else {
				c.Check(err == nil && fx.OpEq(got, r.Share(target)), "recovered share", "%s: %s (%s), want %s", what, fx.ShowOp(got), errStr(err), hexes(r.Share(target)))
			}
			for _, i := range s {
				o, _ := bm.Get(common.NodeIndex(i))
				c.Check(fx.OpEq(o, r.Share(i)), "input changed", "%s: the opening of %d was changed", what, i)
			}
			c.Outcome(err == nil)
			c.Eval(1)
		},
	}, &explore.Space{
		Name: "sparse-indices", Bound: "openers with indices out of {0,1,7,255,256,65535,65536,2^31} in every subset of 1..4, thresholds 1..3, share of 6 indices",
		Run: func(c *explore.Ctx) {
			idx := []int{0, 1, 7, 255, 256, 65535, 65536, 1 << 31}
			kind := c.Choose("operation", 2)
			t := 1 + c.Choose("threshold", 3)
			r, com := shapeOf(e, kind, t)
			subs := fx.Subsets(len(idx), t, 4)
			om := map[int]poly.CommitmentOpening{}
			var used []int
			for _, k := range subs[c.Choose("openers", len(subs))] {
				om[idx[k]] = fx.Opening(r.Share(idx[k]))
				used = append(used, idx[k])
			}
			target := []int{2, 0, 254, 65537, 1<<31 + 1, 1<<32 - 2}[c.Choose("share of", 6)]
			c.Key(kind, t, used, target)
			got, err := dealings.ReconstructShareFromOpenings(&dealings.IDkgDealingInternal{Commitment: com}, fx.OpenMap(om), common.NodeIndex(target))
			c.Check(err == nil && fx.OpEq(got, r.Share(target)), "recovered share", "share of %d from openings of %v: %s (%s)", target, used, fx.ShowOp(got), errStr(err))
		},
	}, &explore.Space{
		Name:   "altered",
		Bound:  "both commitment kinds x thresholds 1..3 x opener sets of the threshold to 4 members; every combination of at most 2 alterations (value or mask replaced, negated, zero; other kind; another member's opening; exchanged; dropped; a stranger's or the target's own added)",
		MaxDev: 2,
		Run:    func(c *explore.Ctx) { alteredOpenings(c, e) },
	}, &explore.Space{
		Name: "cancelling", Bound: "both kinds, thresholds 1..3, t..4 openers: two openings altered by every pair out of 5 differences each, and by a pair which cancels out for the target",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			t := 1 + c.Choose("threshold", 3)
			r, com := shapeOf(e, kind, t)
			n := t + c.Choose("spare openers", 3)
			if n < 2 {
				c.Skip()
			}
			target := n
			idx := make([]int, n)
			vals := map[int][]*big.Int{}
			for i := range idx {
				idx[i] = i
				vals[i] = append([]*big.Int{}, r.Share(i)...)
			}
			a, b := c.Choose("first", n), c.Choose("second", n)
			if a == b {
				c.Skip()
			}
			part := c.Choose("part", len(vals[0]))
			diffs := []*big.Int{ref.I(1), ref.Neg(ref.I(1)), ref.I(2), randScalar(e, "delta")}
			da := diffs[c.Choose("difference", 4)]
			cancel := c.Choose("second difference", 5)
			db := da
			if cancel == 4 { // the two differences cancel at the target
				l := ref.LagrangeAt(ref.I(int64(target+1)), ref.Nodes(idx))
				db = ref.Neg(ref.Mul(ref.Mul(da, l[a]), ref.Inv(l[b])))
			} else {
				db = diffs[cancel]
			}
			vals[a][part] = ref.Add(vals[a][part], da)
			vals[b][part] = ref.Add(vals[b][part], db)
			om := map[int]poly.CommitmentOpening{}
			for i := range idx {
				om[i] = fx.Opening(vals[i])
			}
			c.Key(kind, t, n, a, b, part, da, cancel)
			got, err := dealings.ReconstructShareFromOpenings(&dealings.IDkgDealingInternal{Commitment: com}, fx.OpenMap(om), common.NodeIndex(target))
			c.Check(err != nil || fx.OpEq(got, r.Share(target)), "another share", "altered openings of %d and %d recover %s instead of %s", a, b, fx.ShowOp(got), hexes(r.Share(target)))
			c.Outcome(err == nil, cancel == 4)
		},
	}, &explore.Space{
		Name: "completion", Bound: "4 operations, 4 receivers, 3 dealers; every subset of dealings bad for receiver 0; every subset of other receivers opens each bad dealing with the library; the combined opening of receiver 0 (and of the others) is completed",
		Run: func(c *explore.Ctx) { completion(c, e) },
	}, &explore.Space{
		Name:   "completion-altered",
		Bound:  "4 operations, two bad dealings; every combination of at most 2 alterations of the supplied openings (value, kind, owner, dealing exchanged, missing, unneeded, for unknown dealings)",
		MaxDev: 2,
		Run:    func(c *explore.Ctx) { completionAltered(c, e) },
	})
	sp = append(sp, largeRecoveries(e)...)
	return sp
}

// shapeOf makes a dealing's polynomials and commitment.
func shapeOf(e Env, kind, t int) (*ref.Dealing, poly.PolynomialCommitment) {
	_, rs := fx.LSeed(e.Label("recover", kind, t))
	r := ref.Shape(newOperation(e, kind, 2, 2).secret(1), rs, t)
	r.Commit = ref.Commit(r.Values, r.Mask, t)
	return r, fx.Commitment(r.Pedersen(), r.Commit)
}

func alteredOpenings(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 2)
	t := 1 + c.Choose("threshold", 3)
	n := t + c.Choose("spare openers", 2)
	r, com := shapeOf(e, kind, t)
	target := 4
	vals := map[int][]*big.Int{}
	what := ""
	altered := false
	note := func(f string, a ...any) {
		altered = true
		what += " " + fmt.Sprintf(f, a...)
	}
	for i := 0; i < n; i++ {
		vals[i] = append([]*big.Int{}, r.Share(i)...)
	}
	form := map[int]int{}
	for i := 0; i < n; i++ {
		for j := range vals[i] {
			if x := c.Dev(fmt.Sprintf("opening %d.%d", i, j), scalarEdits+1); x > 0 {
				var nm string
				nm, vals[i][j] = scalarEdit(x-1, vals[i][j])
				note("opening %d.%d %s", i, j, nm)
			}
		}
		switch c.Dev(fmt.Sprint("opening ", i), 6) {
		case 1: // the other kind
			if len(vals[i]) == 1 {
				vals[i] = append(vals[i], ref.I(0))
			} else {
				vals[i] = vals[i][:1]
			}
			note("opening %d of the other kind", i)
		case 2:
			vals[i] = r.Share((i + 1) % n)
			note("opening %d is another member's", i)
		case 3:
			vals[i] = r.Share(target)
			note("opening %d is the target's", i)
		case 4:
			if len(vals[i]) == 2 {
				vals[i][0], vals[i][1] = vals[i][1], vals[i][0]
				note("opening %d with value and mask exchanged", i)
			}
		case 5:
			form[i] = 1
			what += " one by reference"
		}
	}
	switch c.Dev("set", 6) {
	case 1:
		delete(vals, 0)
		note("opening 0 dropped")
	case 2:
		vals[n+1+target] = r.Share(n + 2 + target)
		note("a misattributed opening added")
	case 3:
		vals[target] = r.Share(target)
		what += " with the target's own"
	case 4:
		v := append([]*big.Int{}, r.Share(target)...)
		v[0] = ref.Add(v[0], ref.I(1))
		vals[target] = v
		note("the target's bad one added")
	case 5:
		if n > 1 {
			vals[0], vals[1] = vals[1], vals[0]
			note("openings 0 and 1 exchanged")
		}
	}
	om := map[int]poly.CommitmentOpening{}
	for i, v := range vals {
		if form[i] == 1 {
			om[i] = fx.OpeningPtr(v)
		} else {
			om[i] = fx.Opening(v)
		}
	}
	c.Key(kind, t, n, what)
	got, err := dealings.ReconstructShareFromOpenings(&dealings.IDkgDealingInternal{Commitment: com}, fx.OpenMap(om), common.NodeIndex(target))
	full := fmt.Sprintf("threshold %d, %d openers:%s", t, n, what)
	if len(vals) < t {
		c.Check(err != nil, "too few openings", "%s: recovered %s", full, fx.ShowOp(got))
	} else if altered {
		c.Check(err != nil || fx.OpEq(got, r.Share(target)), "another share", "%s: recovered %s, the share is %s", full, fx.ShowOp(got), hexes(r.Share(target)))
	} else {
		c.Check(err == nil && fx.OpEq(got, r.Share(target)), "recovered share", "%s: %s (%s)", full, fx.ShowOp(got), errStr(err))
	}
	c.Outcome(err == nil, altered)
	c.Eval(1)
}

// run is a transcript in the making: one dealing per dealer.
type dealtRun struct {
	o     operation
	t     int
	ns    []fx.Node
	ad    []byte
	ref   map[int]*ref.Dealing
	any   map[int]*anyDealing
	lib   map[int]*dealings.IDkgDealingInternal
	after *sharing
}

// combineRef computes the sharing a set of dealings produces.
func combineRef(kind int, ds map[int]*ref.Dealing) *sharing {
	var idx []int
	for d := 0; d < 1<<17 && len(idx) < len(ds); d++ {
		if _, ok := ds[d]; ok {
			idx = append(idx, d)
		}
	}
	coef := ref.LagrangeAt(ref.I(0), ref.Nodes(idx))
	var vs, ms []ref.Poly
	for i, d := range idx {
		if kind == ref.KRandom {
			coef[i] = ref.I(1)
		}
		vs = append(vs, ds[d].Values)
		if ds[d].Mask != nil {
			ms = append(ms, ds[d].Mask)
		}
	}
	s := &sharing{v: ref.CombinePolys(coef, vs), summed: kind == ref.KRandom}
	if ms != nil {
		s.ped, s.m = true, ref.CombinePolys(coef, ms)
	}
	s.com = ref.Commit(s.v, s.m, len(s.v))
	return s
}

func newRun(e Env, o operation, label string, t int, ns []fx.Node, dealers []int, ad []byte, bad func(d, i int) bool) *dealtRun {
	r := &dealtRun{o: o, t: t, ns: ns, ad: ad, ref: map[int]*ref.Dealing{}, any: map[int]*anyDealing{}, lib: map[int]*dealings.IDkgDealingInternal{}}
	for _, d := range dealers {
		r.ref[d], r.any[d] = scriptedDealing(e, o, e.Label(label, o.kind, d), t, ns, d, ad, func(i int) bool { return bad(d, i) })
		r.lib[d] = r.any[d].lib()
	}
	r.after = combineRef(o.kind, r.ref)
	return r
}

func openingsMap(m map[int]map[int]poly.CommitmentOpening) *btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]] {
	out := &btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]]{}
	for d, om := range m {
		out.Set(common.NodeIndex(d), fx.OpenMap(om))
	}
	return out
}

func completion(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 4)
	ns := fx.Nodes(e.Label("recover"), 4)
	t := 2
	o := newOperation(e, kind, 2, 2)
	if kind == ref.KProduct {
		o = newOperation(e, kind, 2, 1)
	}
	dl := []int{0, 1, 3}
	ad := []byte("completion")
	bads := fx.Subsets(3, 0, Pick(e, 2, 3))
	bset := bads[c.Choose("bad dealings", len(bads))]
	isBad := map[int]bool{}
	for _, k := range bset {
		isBad[dl[k]] = true
	}
	run := newRun(e, o, "complete", t, ns, dl, ad, func(d, i int) bool { return isBad[d] && i == 0 })
	tr, err := dealings.NewTranscriptInternal(fx.K, t, fx.DealMap(run.lib), o.lib(true))
	c.Check(err == nil && fx.CommitEq(tr.CombinedCommitment, run.after.ped, run.after.com), "transcript", "%s: %s", kindNames[kind], errStr(err))
	what := fmt.Sprintf("%s, dealings %v bad for receiver 0", kindNames[kind], bset)
	// without help
	got, err := dealings.CommitmentOpening.FromDealings(fx.DealMap(run.lib), tr.CombinedCommitment, ad, 0, lsk(ns[0].Sk), lpk(ns[0].Pk))
	if len(bset) == 0 {
		c.Check(err == nil && fx.OpEq(got, run.after.share(0)), "combined opening", "%s: %s (%s)", what, fx.ShowOp(got), errStr(err))
	} else {
		c.Check(err != nil, "bad dealing used", "%s: receiver 0 gets %s without help", what, fx.ShowOp(got))
	}
	// the others open the bad dealings
	supplied := map[int]map[int]poly.CommitmentOpening{}
	ok := true
	subs := fx.Subsets(3, 0, 3)
	for _, k := range bset {
		d := dl[k]
		supplied[d] = map[int]poly.CommitmentOpening{}
		s := subs[c.Choose("openers", len(subs))]
		for _, j := range s {
			i := j + 1
			op, err := dealings.CommitmentOpening.OpenDealing(run.lib[d], ad, common.NodeIndex(d), common.NodeIndex(i), lsk(ns[i].Sk), lpk(ns[i].Pk))
			c.Check(err == nil && fx.OpEq(op, run.ref[d].Share(i)), "opening", "%s: receiver %d opens dealing %d: %s (%s)", what, i, d, fx.ShowOp(op), errStr(err))
			supplied[d][i] = op
		}
		what += fmt.Sprint(" opened by ", s)
		ok = ok && len(s) >= t
	}
	c.Key(what)
	got, err = dealings.CommitmentOpening.FromDealingsAndOpenings(fx.DealMap(run.lib), openingsMap(supplied), tr.CombinedCommitment, ad, 0, lsk(ns[0].Sk), lpk(ns[0].Pk))
	if ok {
		c.Check(err == nil && fx.OpEq(got, run.after.share(0)), "completed opening", "%s: %s (%s), want %s", what, fx.ShowOp(got), errStr(err), hexes(run.after.share(0)))
	} else {
		c.Check(err != nil, "too few openings", "%s: completed as %s", what, fx.ShowOp(got))
	}
	for i := 1; i < 4; i++ { // the others need no help
		got, err := dealings.CommitmentOpening.FromDealings(fx.DealMap(run.lib), tr.CombinedCommitment, ad, common.NodeIndex(i), lsk(ns[i].Sk), lpk(ns[i].Pk))
		c.Check(err == nil && fx.OpEq(got, run.after.share(i)), "combined opening", "%s: receiver %d: %s (%s)", what, i, fx.ShowOp(got), errStr(err))
	}
	c.Outcome(ok)
	c.Eval(5)
}

func completionAltered(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 4)
	ns := fx.Nodes(e.Label("recover"), 4)
	t := 2
	o := newOperation(e, kind, 2, 2)
	if kind == ref.KProduct {
		o = newOperation(e, kind, 2, 1)
	}
	dl := []int{0, 1, 3}
	ad := []byte("completion")
	run := newRun(e, o, "complete", t, ns, dl, ad, func(d, i int) bool { return d != 0 && i == 0 })
	com := run.after.wrapped()
	what, altered := kindNames[kind], false
	supplied := map[int]map[int]poly.CommitmentOpening{}
	for _, d := range []int{1, 3} {
		om := map[int]poly.CommitmentOpening{}
		for i := 1; i < 4; i++ {
			v := append([]*big.Int{}, run.ref[d].Share(i)...)
			for j := range v {
				if x := c.Dev(fmt.Sprintf("opening of %d by %d part %d", d, i, j), 4); x > 0 {
					var nm string
					nm, v[j] = scalarEdit(x-1, v[j])
					what += fmt.Sprintf(" opening of %d by %d part %d %s", d, i, j, nm)
					altered = true
				}
			}
			key := i
			switch c.Dev(fmt.Sprintf("opening of %d by %d", d, i), 5) {
			case 1:
				v = append([]*big.Int{ref.I(3)}, v...)[:3-len(v)]
				altered = true
				what += fmt.Sprintf(" opening of %d by %d of the other kind", d, i)
			case 2:
				key = i + 7
				altered = true
				what += fmt.Sprintf(" opening of %d by %d attributed to %d", d, i, key)
			case 3:
				v = run.ref[4-d].Share(i)
				altered = true
				what += fmt.Sprintf(" opening of %d by %d is of dealing %d", d, i, 4-d)
			case 4:
				what += fmt.Sprintf(" opening of %d by %d missing", d, i)
				continue
			}
			om[key] = fx.Opening(v)
		}
		supplied[d] = om
	}
	switch c.Dev("sets", 5) {
	case 1:
		supplied[1], supplied[3] = supplied[3], supplied[1]
		altered = true
		what += " sets exchanged"
	case 2: // for a dealing which is not bad
		supplied[0] = map[int]poly.CommitmentOpening{}
		for i := 1; i < 4; i++ {
			supplied[0][i] = fx.Opening(run.ref[0].Share(i))
		}
		what += " unneeded set"
	case 3:
		supplied[9] = supplied[1]
		what += " set for an unknown dealing"
	case 4:
		delete(supplied, 3)
		altered = true
		what += " set missing"
	}
	enough := len(supplied[1]) >= t && (len(supplied[3]) >= t || supplied[3] == nil)
	c.Key(what)
	got, err := dealings.CommitmentOpening.FromDealingsAndOpenings(fx.DealMap(run.lib), openingsMap(supplied), com, ad, 0, lsk(ns[0].Sk), lpk(ns[0].Pk))
	want := run.after.share(0)
	switch {
	case !enough || supplied[3] == nil:
		c.Check(err != nil, "too few openings", "%s: completed as %s", what, fx.ShowOp(got))
	case altered:
		c.Check(err != nil || fx.OpEq(got, want), "another opening", "%s: completed as %s, want %s", what, fx.ShowOp(got), hexes(want))
	default:
		c.Check(err == nil && fx.OpEq(got, want), "completed opening", "%s: %s (%s), want %s", what, fx.ShowOp(got), errStr(err), hexes(want))
	}
	c.Outcome(err == nil, altered)
	c.Eval(1)
}
