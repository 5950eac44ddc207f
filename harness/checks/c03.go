package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/tidwall/btree"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C03",
		Level: "model_checking",
		Rule: "one execution is one attempt to create a transcript from one operation, threshold and set of dealings; success or failure and the resulting commitment are compared with the " +
			"model's rule; distinct means distinct (operation, threshold, dealings) inputs",
		Assume: []string{"a random transcript is asked for with at least one dealing", "source commitments and thresholds have at least one point unless stated"},
		Spaces: c03Spaces,
	})
}

// anyCom is a commitment of any kind and length.
type anyCom struct {
	ped bool
	ps  []ref.P
}

func (a anyCom) lib() poly.PolynomialCommitment { return fx.Commitment(a.ped, a.ps) }

// combineModel is the rule for creating a transcript.
func combineModel(kind int, src []anyCom, t int, idx []int, coms map[int]anyCom) (anyCom, bool) {
	for _, d := range idx {
		if len(coms[d].ps) != t {
			return anyCom{}, false
		}
	}
	need, wantPed := 1, false
	switch kind {
	case ref.KRandom:
		wantPed = true
	case ref.KUnmasked:
		if src[0].ped {
			return anyCom{}, false
		}
		need = len(src[0].ps)
	case ref.KMasked:
		if !src[0].ped {
			return anyCom{}, false
		}
		need = len(src[0].ps)
	case ref.KProduct:
		if src[0].ped || !src[1].ped {
			return anyCom{}, false
		}
		need = len(src[0].ps) + len(src[1].ps) - 1
		wantPed = true
	default:
		return anyCom{}, false
	}
	if len(idx) < need || len(idx) == 0 {
		return anyCom{}, false
	}
	coef := ref.LagrangeAt(ref.I(0), ref.Nodes(idx))
	out := anyCom{wantPed, make([]ref.P, t)}
	for k, d := range idx {
		if coms[d].ped != wantPed {
			return anyCom{}, false
		}
		for i := range out.ps {
			p := coms[d].ps[i]
			if kind != ref.KRandom {
				p = p.Mul(coef[k])
			}
			out.ps[i] = out.ps[i].Add(p)
		}
	}
	if kind == ref.KUnmasked && !out.ps[0].Equal(src[0].ps[0]) {
		return anyCom{}, false
	}
	return out, true
}

// libOperation builds an operation from any sources, bare or wrapped.
func libOperation(kind int, src []anyCom, wrap int) dealings.IDkgTranscriptOperationInternal {
	c := func(i int) poly.PolynomialCommitment {
		switch wrap {
		case 1:
			return &dealings.SummationCommitment{PolynomialCommitment: src[i].lib()}
		case 2:
			return &dealings.InterpolationCommitment{PolynomialCommitment: src[i].lib()}
		}
		return src[i].lib()
	}
	switch kind {
	case ref.KRandom:
		return &dealings.RandomTranscript{}
	case ref.KUnmasked:
		return &dealings.ReshareOfUnmaskedTranscript{P1: c(0)}
	case ref.KMasked:
		return &dealings.ReshareOfMaskedTranscript{P1: c(0)}
	}
	return &dealings.UnmaskedTimesMaskedTranscript{Left: c(0), Right: c(1)}
}

func comMap(coms map[int]anyCom) *btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal] {
	m := map[int]*dealings.IDkgDealingInternal{}
	for d, x := range coms {
		m[d] = &dealings.IDkgDealingInternal{Commitment: x.lib()}
	}
	return fx.DealMap(m)
}

func checkTranscript(c *explore.Ctx, what string, op dealings.IDkgTranscriptOperationInternal, kind int, src []anyCom, t int, idx []int, coms map[int]anyCom) {
	want, ok := combineModel(kind, src, t, idx, coms)
	m := comMap(coms)
	tr, err := dealings.NewTranscriptInternal(fx.K, t, m, op)
	c.Check((err == nil) == ok, "verdict", "%s: %s, want created=%v", what, errStr(err), ok)
	if ok {
		cc := tr.CombinedCommitment
		_, isSum := cc.(*dealings.SummationCommitment)
		_, isInt := cc.(*dealings.InterpolationCommitment)
		c.Check(isSum == (kind == ref.KRandom) && isInt != isSum, "kind", "%s: the transcript holds a %T", what, cc)
		c.Check(fx.CommitEq(cc, want.ped, want.ps), "commitment", "%s: %s, want %s", what, showCommitment(cc), showPoints(want.ped, want.ps))
	} else {
		c.Check(tr == nil, "transcript with error", "%s: a transcript comes with the error", what)
	}
	for _, d := range idx {
		l, _ := m.Get(common.NodeIndex(d))
		c.Check(fx.CommitEq(l.Commitment, coms[d].ped, coms[d].ps), "input changed", "%s: the dealing of %d was changed", what, d)
	}
	c.Check(m.Len() == len(idx), "input changed", "%s: the map of dealings was changed", what)
	c.Outcome(ok, kind)
	c.Eval(1)
}

// honestComs gives the commitments honest dealers make.
func honestComs(e Env, o operation, t int, idx []int) map[int]anyCom {
	out := map[int]anyCom{}
	for _, d := range idx {
		out[d] = honestCom(e, o, t, d)
	}
	return out
}

func honestCom(e Env, o operation, t, d int) anyCom {
	type k struct {
		seed          int64
		kind, a, b, t int
		d             int
	}
	key := k{e.Seed, o.kind, 0, 0, t, d}
	if o.p1 != nil {
		key.a = o.p1.t()
	}
	if o.p2 != nil {
		key.b = o.p2.t()
	}
	if v, ok := honestCache.Load(key); ok {
		return v.(anyCom)
	}
	r := fx.RefShape(o.secret(d), e.Label("count", o.kind, d), t)
	v := anyCom{r.Pedersen(), ref.Commit(r.Values, r.Mask, t)}
	honestCache.Store(key, v)
	return v
}

func sourcesOf(o operation) []anyCom {
	var out []anyCom
	for _, s := range []*sharing{o.p1, o.p2} {
		if s != nil {
			out = append(out, anyCom{s.ped, s.com})
		}
	}
	return out
}

func c03Spaces(e Env) []*explore.Space {
	var sp []*explore.Space
	nMax := Pick(e, 6, 8)
	sp = append(sp, &explore.Space{
		Name:  "counts",
		Bound: fmt.Sprintf("4 operations, every pair of source thresholds up to 3, new thresholds 1..3, every set of dealings by %d dealers", nMax),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			t1, t2 := 1, 1
			if kind != ref.KRandom {
				t1 = 1 + c.Choose("first threshold", 3)
			}
			if kind == ref.KProduct {
				t2 = 1 + c.Choose("second threshold", 3)
			}
			t := 1 + c.Choose("threshold", 3)
			lo := 0
			if kind == ref.KRandom {
				lo = 1
			}
			subs := fx.Subsets(nMax, lo, nMax)
			idx := subs[c.Choose("dealers", len(subs))]
			o := cachedOperation(e, kind, t1, t2)
			src := sourcesOf(o)
			c.Key(kind, t1, t2, t, idx)
			checkTranscript(c, fmt.Sprintf("%s (sources %d, %d) with threshold %d from dealers %v", kindNames[kind], t1, t2, t, idx),
				libOperation(kind, src, 0), kind, src, t, idx, honestComs(e, o, t, idx))
		},
	}, &explore.Space{
		Name:   "deviations",
		Bound:  "4 operations, source thresholds 1 and 2, new thresholds 1..3, the minimal number of dealings and one more; every combination of at most " + fmt.Sprint(Pick(e, 2, 3)) + " deviations: dealing commitments too short, too long, of the other kind, with a changed constant or other point, another dealer's, exchanged; sources of the other kind, shorter, longer, changed; another threshold argument; another operation; wrapped sources; a missing or extra dealing",
		MaxDev: Pick(e, 2, 3),
		Run:    func(c *explore.Ctx) { transcriptDeviations(c, e) },
	}, &explore.Space{
		Name:  "uniform",
		Bound: "4 operations x source kinds and lengths 1..3 x threshold 1..3 x dealings which are all of one kind (simple, masked) and one length 1..3 and combine to the source's constant or another x 1..4 dealings",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			var src []anyCom
			for i := 0; i < []int{0, 1, 1, 2}[kind]; i++ {
				ped := c.Bool("source masked")
				n := 1 + c.Choose("source length", 3)
				src = append(src, anyCom{ped, cachedSharing(e, fmt.Sprint("uniform", i), ped, n).com})
			}
			t := 1 + c.Choose("threshold", 3)
			ped := c.Bool("dealings masked")
			n := 1 + c.Choose("dealing length", 3)
			count := 1 + c.Choose("dealings", 4)
			coms := map[int]anyCom{}
			var idx []int
			same := len(src) > 0 && c.Bool("constant kept")
			for d := 0; d < count; d++ {
				ps := append([]ref.P{}, cachedSharing(e, fmt.Sprint("dealt", d), ped, n).com...)
				if same { // every dealing has the source's constant: so has the interpolation
					ps[0] = src[0].ps[0]
				}
				coms[d] = anyCom{ped, ps}
				idx = append(idx, d)
			}
			what := fmt.Sprintf("%s from %d sources, threshold %d, %d dealings of length %d masked=%v constant kept=%v", kindNames[kind], len(src), t, count, n, ped, same)
			for _, s := range src {
				what += fmt.Sprintf(" source(masked=%v, %d)", s.ped, len(s.ps))
			}
			c.Key(what)
			checkTranscript(c, what, libOperation(kind, src, 0), kind, src, t, idx, coms)
		},
	}, &explore.Space{
		Name:  "constant",
		Bound: "resharing of an unmasked sharing, thresholds 1..3, t..4 dealings: the constants of every pair of dealings are shifted by every pair of 4 amounts, or by a pair which cancels out",
		Run: func(c *explore.Ctx) {
			t1 := 1 + c.Choose("source threshold", 3)
			n := t1 + c.Choose("spare dealings", 5-t1)
			o := cachedOperation(e, ref.KUnmasked, t1, 1)
			src := sourcesOf(o)
			var idx []int
			for d := 0; d < n; d++ {
				idx = append(idx, d)
			}
			t := 1 + c.Choose("threshold", 2)
			coms := honestComs(e, o, t, idx)
			shift := func(d int, by *big.Int) {
				ps := append([]ref.P{}, coms[d].ps...)
				ps[0] = ps[0].Add(ref.MulG(by))
				coms[d] = anyCom{coms[d].ped, ps}
			}
			amounts := []*big.Int{ref.I(0), ref.I(1), ref.Neg(ref.I(1)), randScalar(e, "shift")}
			a, b := c.Choose("first", n), c.Choose("second", n)
			if n > 1 && a == b {
				c.Skip()
			}
			da := amounts[c.Choose("shift", 4)]
			k := c.Choose("second shift", 5)
			shift(a, da)
			if n > 1 {
				db := ref.I(0)
				if k == 4 {
					l := ref.LagrangeAt(ref.I(0), ref.Nodes(idx))
					db = ref.Neg(ref.Mul(ref.Mul(da, l[a]), ref.Inv(l[b])))
				} else {
					db = amounts[k]
				}
				shift(b, db)
			} else if k > 0 {
				c.Skip()
			}
			c.Key(t1, n, t, a, b, da, k)
			checkTranscript(c, fmt.Sprintf("resharing (source %d) by %d dealers, constants of %d and %d shifted by %x and #%d", t1, n, a, b, da, k), libOperation(ref.KUnmasked, src, 1+c.Choose("wrapped", 2)), ref.KUnmasked, src, t, idx, coms)
		},
	}, &explore.Space{
		Name:  "by-interpolation",
		Bound: "CombineCommitmentsViaInterpolation: both wanted kinds x thresholds 1..3 x every set of 0..4 dealings x every assignment of kinds",
		Run: func(c *explore.Ctx) {
			ped := c.Bool("masked wanted")
			t := 1 + c.Choose("threshold", 3)
			n := c.Choose("dealings", 5)
			coms := map[int]anyCom{}
			var idx []int
			ok := n > 0
			for k := 0; k < n; k++ {
				d := []int{0, 2, 3, 300}[k]
				is := c.Bool(fmt.Sprint("masked ", d))
				coms[d] = anyCom{is, cachedSharing(e, fmt.Sprint("dealt", k), is, t).com}
				idx = append(idx, d)
				ok = ok && is == ped
			}
			ty := poly.Simple
			if ped {
				ty = poly.Pedersen
			}
			c.Key(ped, t, n, fmt.Sprint(idx), fmt.Sprint(coms))
			got, err := dealings.CombineCommitmentsViaInterpolation(ty, fx.K, t, comMap(coms))
			c.Check((err == nil) == ok, "verdict", "%d dealings: %s, want combined=%v", n, errStr(err), ok)
			if ok {
				co := ref.LagrangeAt(ref.I(0), ref.Nodes(idx))
				want := make([]ref.P, t)
				for k, d := range idx {
					for i := range want {
						want[i] = want[i].Add(coms[d].ps[i].Mul(co[k]))
					}
				}
				c.Check(fx.CommitEq(got, ped, want), "commitment", "%d dealings: %s, want %s", n, showCommitment(got), showPoints(ped, want))
			}
			c.Outcome(ok, n)
		},
	})
	sp = append(sp, largeTranscripts(e)...)
	return sp
}

func transcriptDeviations(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 4)
	t1, t2 := 1, 1
	if kind != ref.KRandom {
		t1 = 1 + c.Choose("first threshold", 2)
	}
	if kind == ref.KProduct {
		t2 = 1 + c.Choose("second threshold", 2)
	}
	t := 1 + c.Choose("threshold", 3)
	o := cachedOperation(e, kind, t1, t2)
	count := o.need() + c.Choose("spare dealings", 2)
	var idx []int
	for d := 0; d < count; d++ {
		idx = append(idx, d)
	}
	coms := honestComs(e, o, t, idx)
	src := sourcesOf(o)
	what := ""
	note := func(f string, a ...any) { what += " " + fmt.Sprintf(f, a...) }
	extra := ref.MulG(ref.I(77))
	for d := 0; d < count; d++ {
		x := coms[d]
		x.ps = append([]ref.P{}, x.ps...)
		switch c.Dev(fmt.Sprint("dealing ", d), 10) {
		case 1:
			x.ps = x.ps[:t-1]
			note("dealing %d too short", d)
		case 2:
			x.ps = append(x.ps, extra)
			note("dealing %d too long", d)
		case 3:
			x.ps = append(x.ps, ref.P{})
			note("dealing %d too long by an identity", d)
		case 4:
			x.ped = !x.ped
			note("dealing %d of the other kind", d)
		case 5:
			x.ps[0] = x.ps[0].Add(ref.G)
			note("dealing %d with another constant", d)
		case 6:
			x.ps[t-1] = ref.P{}
			note("dealing %d with vanishing last point", d)
		case 7:
			x = coms[(d+1)%count]
			note("dealing %d is the next one", d)
		case 8:
			for i := range x.ps {
				x.ps[i] = x.ps[i].Neg()
			}
			note("dealing %d negated", d)
		case 9:
			x.ps = nil
			note("dealing %d empty", d)
		}
		coms[d] = x
	}
	for i := range src {
		x := anyCom{src[i].ped, append([]ref.P{}, src[i].ps...)}
		switch c.Dev(fmt.Sprint("source ", i), 6) {
		case 1:
			x.ped = !x.ped
			note("source %d of the other kind", i)
		case 2:
			x.ps = append(x.ps, extra)
			note("source %d longer", i)
		case 3:
			if len(x.ps) > 1 {
				x.ps = x.ps[:len(x.ps)-1]
				note("source %d shorter", i)
			}
		case 4:
			x.ps[0] = x.ps[0].Neg()
			note("source %d with negated constant", i)
		case 5:
			x.ps[len(x.ps)-1] = x.ps[len(x.ps)-1].Add(ref.H)
			note("source %d with another last point", i)
		}
		src[i] = x
	}
	ta := t
	switch c.Dev("threshold argument", 4) {
	case 1:
		ta = t + 1
	case 2:
		ta = t - 1
	case 3:
		ta = t + 2
	}
	if ta != t {
		note("threshold argument %d", ta)
	}
	wrap := c.Dev("wrapped", 3)
	k := kind
	op := libOperation(kind, src, wrap)
	switch x := c.Dev("operation used", 7); x {
	case 1, 2, 3, 4:
		// another operation on the same sources (the missing one is invented)
		k = x - 1
		need := []int{0, 1, 1, 2}[k]
		for len(src) < need {
			src = append(src, anyCom{len(src) == 1 || k == ref.KMasked, cachedSharing(e, "invented", true, 1).com})
		}
		src = src[:need]
		op = libOperation(k, src, wrap)
		note("used as %s", kindNames[k])
	case 5:
		op, k = nil, -1
		note("without operation")
	case 6:
		op, k = "unknown", -1
		note("unknown operation")
	}
	switch c.Dev("set", 4) {
	case 1:
		delete(coms, idx[0])
		idx = idx[1:]
		note("first dealing missing")
	case 2:
		delete(coms, idx[len(idx)-1])
		idx = idx[:len(idx)-1]
		note("last dealing missing")
	case 3:
		coms[9] = anyCom{coms[idx[0]].ped, append([]ref.P{}, coms[idx[0]].ps...)}
		idx = append(idx, 9)
		note("a copy added as dealing 9")
	}
	if k == ref.KRandom && len(idx) == 0 {
		c.Skip()
	}
	if ta == 0 && k == ref.KUnmasked {
		c.Skip()
	}
	c.Key(kind, t1, t2, t, count, wrap, what)
	checkTranscript(c, fmt.Sprintf("%s (sources %d, %d) with threshold %d from %d dealings:%s", kindNames[kind], t1, t2, t, count, what), op, k, src, ta, idx, coms)
}
