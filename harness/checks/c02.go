package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C02",
		Level: "model_checking",
		Rule: "a state is a sharing (its committed polynomials, named by the commitment) reached by a history of operations; a transition is one operation with one dealer set, new threshold and " +
			"committee, run with the library from that state and compared with the reference state after it; distinct means distinct (state, operation) pairs",
		Assume: []string{"nobody knows a discrete logarithm between the generators", "dealings are made honestly; bad ones are the subject of C04 to C07"},
		Spaces: c02Spaces,
	})
}

// libStep runs one operation with the library: dealings, their verification,
// the transcript and every receiver's opening. secret gives a dealer's input as
// the library handed it out.
type libStep struct {
	tr    *dealings.IDkgTranscriptInternal
	opens []poly.CommitmentOpening
}

// stepSpec names an operation.
type stepSpec struct {
	label   string
	o       operation
	t, n    int
	dealers []int
	ad      []byte
	verify  bool
}

func (s stepSpec) show() string {
	src := ""
	if s.o.p1 != nil {
		src = fmt.Sprintf(" of a sharing with threshold %d", s.o.p1.t())
	}
	if s.o.p2 != nil {
		src += fmt.Sprintf(" and one with %d", s.o.p2.t())
	}
	return fmt.Sprintf("%s%s by dealers %v to %d receivers with threshold %d", kindNames[s.o.kind], src, s.dealers, s.n, s.t)
}

// refStep is the model's transition.
func refStep(s stepSpec) (*sharing, *big.Int) {
	ds := map[int]*ref.Dealing{}
	var want *big.Int
	switch s.o.kind {
	case ref.KRandom:
		want = ref.I(0)
	case ref.KProduct:
		want = ref.Mul(s.o.p1.v[0], s.o.p2.v[0])
	default:
		want = s.o.p1.v[0]
	}
	for _, d := range s.dealers {
		ds[d] = fx.RefShape(s.o.secret(d), fmt.Sprint(s.label, "/", d), s.t)
		if s.o.kind == ref.KRandom {
			want = ref.Add(want, ds[d].Values[0])
		}
	}
	return combineRef(s.o.kind, ds), want
}

// step runs the transition in the library; secrets may replace the dealers'
// inputs with what earlier library calls returned, op the operation.
func step(c *explore.Ctx, s stepSpec, after *sharing, ns []fx.Node, op dealings.IDkgTranscriptOperationInternal, secrets map[int]dealings.SecretShares) libStep {
	lib := map[int]*dealings.IDkgDealingInternal{}
	for _, d := range s.dealers {
		sec := fx.LSecret(s.o.secret(d))
		if secrets != nil {
			sec = secrets[d]
		}
		sd, _ := fx.LSeed(fmt.Sprint(s.label, "/", d))
		l, err := dealings.NewIDkgDealingInternal(sec, fx.K, sd, s.t, fx.PKs(ns), common.NodeIndex(d), s.ad)
		c.Check(err == nil, "dealing", "%s: dealer %d: %v", s.show(), d, err)
		if s.verify {
			err = l.PubliclyVerify(fx.K, op, s.t, common.NodeIndex(d), s.n, s.ad)
			c.Check(err == nil, "verification", "%s: the dealing of %d is refused: %v", s.show(), d, err)
		}
		lib[d] = l
	}
	tr, err := dealings.NewTranscriptInternal(fx.K, s.t, fx.DealMap(lib), op)
	c.Check(err == nil, "transcript", "%s: %v", s.show(), err)
	cc := tr.CombinedCommitment
	_, isSum := cc.(*dealings.SummationCommitment)
	c.Check(isSum == after.summed, "transcript", "%s: the combined commitment is a %T", s.show(), cc)
	c.Check(fx.CommitEq(cc, after.ped, after.com), "transcript", "%s: commits to %s, want %s", s.show(), showCommitment(cc), after.show())
	c.Check(fx.PEq(tr.ConstantTerm(), after.com[0]), "transcript", "%s: constant term", s.show())
	out := libStep{tr, make([]poly.CommitmentOpening, s.n)}
	for i := range ns {
		o, err := dealings.CommitmentOpening.FromDealings(fx.DealMap(lib), cc, s.ad, common.NodeIndex(i), ns[i].SK, ns[i].PK)
		c.Check(err == nil && fx.OpEq(o, after.share(i)), "opening", "%s: receiver %d opens %s (%s), want %s", s.show(), i, fx.ShowOp(o), errStr(err), hexes(after.share(i)))
		c.Check(cc.CheckOpening(common.NodeIndex(i), o), "opening", "%s: the opening of receiver %d is not consistent", s.show(), i)
		out.opens[i] = o
	}
	return out
}

// checkSecret interpolates every threshold-sized set of library openings.
func checkSecret(c *explore.Ctx, s stepSpec, l libStep, after *sharing, want *big.Int) {
	c.Check(after.v[0].Cmp(want) == 0, "secret", "%s: the history's secret is %x, shared is %x", s.show(), want, after.v[0])
	if s.n < s.t {
		return
	}
	for _, q := range fx.Subsets(s.n, s.t, s.t) {
		co := ref.LagrangeAt(ref.I(0), ref.Nodes(q))
		sum := ref.I(0)
		for k, i := range q {
			sum = ref.Add(sum, ref.Mul(co[k], fx.OpenVals(l.opens[i])[0]))
		}
		c.Check(sum.Cmp(want) == 0, "secret", "%s: the openings of %v interpolate to %x, want %x", s.show(), q, sum, want)
	}
}

// chooseStep picks an operation allowed from cur (nil: only random dealings).
func chooseStep(c *explore.Ctx, e Env, label string, cur *sharing, nOld int, maxT, maxN int, full bool) stepSpec {
	s := stepSpec{label: e.Label("history", label), ad: []byte("history " + label)}
	need := 1
	if cur == nil {
		s.o = operation{kind: ref.KRandom}
	} else {
		var partner *sharing
		if c.Bool("multiply") {
			// the other factor is a fresh sharing of the other kind
			pt := 1 + c.Choose("partner threshold", 2)
			partner = newSharing(e, fmt.Sprint("partner", label, pt), !cur.ped, pt)
			partner.summed = partner.ped
			s.o = operation{kind: ref.KProduct, p1: cur, p2: partner}
			if cur.ped {
				s.o.p1, s.o.p2 = partner, cur
			}
		} else if cur.ped {
			s.o = operation{kind: ref.KMasked, p1: cur}
		} else {
			s.o = operation{kind: ref.KUnmasked, p1: cur}
		}
		need = s.o.need()
	}
	if need > nOld {
		c.Skip() // this committee cannot perform the operation
	}
	subs := fx.Subsets(nOld, need, nOld)
	if !full { // smallest sets only
		subs = fx.Subsets(nOld, need, need)
	}
	s.dealers = subs[c.Choose("dealers", len(subs))]
	s.n = 2
	if maxN > 2 {
		s.n = 2 + c.Choose("receivers", maxN-1)
	}
	s.t = 1 + c.Choose("new threshold", min(maxT, s.n))
	s.label += fmt.Sprint("/", s.o.kind, s.t, s.n)
	return s
}

func c02Spaces(e Env) []*explore.Space {
	var sp []*explore.Space
	nodes := func(k, n int) []fx.Node { return fx.Nodes(e.Label("history committee", k), n) }
	history := func(c *explore.Ctx, depth, n0, maxT, maxN int, full bool) {
		var cur *sharing
		nOld := n0
		trail := ""
		for k := 0; ; k++ {
			s := chooseStep(c, e, fmt.Sprint(k), cur, nOld, maxT, maxN, full)
			after, want := refStep(s)
			last := k+1 == depth || !c.Bool("continue")
			if cur != nil {
				trail += cur.show()
			}
			if last {
				c.Key(trail, s.show(), s.label)
				ns := nodes(k+1, s.n)
				l := step(c, s, after, ns, s.o.lib(true), nil)
				checkSecret(c, s, l, after, want)
				c.State(after.show())
				c.Step(1)
				c.Outcome(s.o.kind, s.t, s.n, len(s.dealers))
				c.Eval(1)
				return
			}
			cur, nOld = after, s.n
		}
	}
	sp = append(sp, &explore.Space{
		Name:  "histories",
		Bound: fmt.Sprintf("every history of at most %s starting from random dealings by every subset of 3 dealers, each step resharing or multiplying with a fresh sharing (threshold 1, 2), every sufficient dealer subset, new committees of 2..%d with every threshold up to 3", Pick(e, "2 operations", "3 operations"), Pick(e, 3, 4)),
		Run: func(c *explore.Ctx) {
			history(c, Pick(e, 2, 3), 3, 3, Pick(e, 3, 4), true)
		},
	}, &explore.Space{
		Name:  "deep-histories",
		Bound: fmt.Sprintf("every history of exactly %d operations from 3 dealers with committees of 3 and minimal dealer sets, thresholds up to 2", Pick(e, 3, 4)),
		Run: func(c *explore.Ctx) {
			var cur *sharing
			nOld := 3
			trail := ""
			depth := Pick(e, 3, 4)
			for k := 0; k < depth; k++ {
				s := chooseStep(c, e, fmt.Sprint("deep", k), cur, nOld, 2, 2, false)
				s.n = 3
				after, want := refStep(s)
				trail += s.show() + ";"
				if k+1 == depth {
					c.Key(trail)
					l := step(c, s, after, nodes(k+1, s.n), s.o.lib(true), nil)
					checkSecret(c, s, l, after, want)
					c.State(after.show())
					c.Step(1)
				}
				cur, nOld = after, s.n
			}
		},
	}, &explore.Space{
		Name:  "chains",
		Bound: "presignature-like histories of 4 operations carried by the library's own objects (openings used as the next dealers' inputs, combined commitments as the next sources), every choice of minimal dealer sets, thresholds up to 2, wrapped or cloned source commitments",
		Run:   func(c *explore.Ctx) { libChain(c, e) },
	}, &explore.Space{
		Name:  "dealer-indices",
		Bound: "4 operations with dealer indices out of {0,1,2,127,128,255,256,65535,65536,2^31-1} in every set of 1..3, thresholds 1, 2",
		Run: func(c *explore.Ctx) {
			idx := []int{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1}
			kind := c.Choose("operation", 4)
			t1 := 1
			if kind != ref.KRandom {
				t1 = 1 + c.Choose("source threshold", 2)
			}
			o := newOperation(e, kind, t1, 2)
			sub := fx.Subsets(len(idx), o.need(), 3)
			s := stepSpec{label: e.Label("indices", kind), o: o, t: 1 + c.Choose("threshold", 2), n: 2, ad: []byte("indices")}
			for _, k := range sub[c.Choose("dealers", len(sub))] {
				s.dealers = append(s.dealers, idx[k])
			}
			ds := map[int]*ref.Dealing{}
			lib := map[int]*dealings.IDkgDealingInternal{}
			for _, d := range s.dealers {
				ds[d] = fx.RefShape(o.secret(d), fmt.Sprint(s.label, "/", d), s.t)
				ds[d].Commit = ref.Commit(ds[d].Values, ds[d].Mask, s.t)
				lib[d] = &dealings.IDkgDealingInternal{Commitment: fx.Commitment(ds[d].Pedersen(), ds[d].Commit)}
			}
			after := combineSparse(kind, s.dealers, ds)
			c.Key(kind, t1, s.t, s.dealers)
			tr, err := dealings.NewTranscriptInternal(fx.K, s.t, fx.DealMap(lib), o.lib(true))
			c.Check(err == nil, "transcript", "%s: %v", s.show(), err)
			c.Check(fx.CommitEq(tr.CombinedCommitment, after.ped, after.com), "transcript", "%s: commits to %s, want %s", s.show(), showCommitment(tr.CombinedCommitment), after.show())
			// combining the openings of a receiver
			for _, i := range []int{0, 5} {
				var ix []common.NodeIndex
				var os []poly.CommitmentOpening
				for _, d := range s.dealers {
					ix = append(ix, common.NodeIndex(d))
					os = append(os, fx.Opening(ds[d].Share(i)))
				}
				got, err := dealings.CommitmentOpening.CombineOpenings(ix, os, tr.CombinedCommitment, common.NodeIndex(i), fx.K)
				c.Check(err == nil && fx.OpEq(got, after.share(i)), "opening", "%s: receiver %d combines to %s (%s), want %s", s.show(), i, fx.ShowOp(got), errStr(err), hexes(after.share(i)))
			}
			c.State(after.show())
			c.Eval(3)
		},
	}, &explore.Space{
		Name:  "boundary-secrets",
		Bound: "resharing and multiplication of secrets out of {0,1,-1,half the order} with zero and non-zero masks and vanishing leading coefficients, 3 dealers",
		Run: func(c *explore.Ctx) {
			vals := []*big.Int{ref.I(0), ref.I(1), ref.Neg(ref.I(1)), ref.HalfN}
			kind := 1 + c.Choose("operation", 3)
			o := newOperation(e, kind, 2, 2)
			set := func(s *sharing, name string) {
				s.v = append(ref.Poly{}, s.v...)
				s.v[0] = vals[c.Choose(name, len(vals))]
				if c.Bool(name + " constant polynomial") {
					s.v[1] = ref.I(0)
				}
				if s.ped && c.Bool(name+" without mask") {
					s.m = ref.Poly{ref.I(0), ref.I(0)}
				}
				s.com = ref.Commit(s.v, s.m, 2)
			}
			set(o.p1, "first")
			if o.p2 != nil {
				set(o.p2, "second")
			}
			s := stepSpec{label: e.Label("boundary", kind), o: o, t: 2, n: 3, dealers: []int{0, 1, 2}, ad: []byte("boundary"), verify: true}
			after, want := refStep(s)
			c.Key(kind, o.p1.show(), after.show())
			l := step(c, s, after, nodes(9, 3), o.lib(c.Bool("wrapped")), nil)
			checkSecret(c, s, l, after, want)
			c.State(after.show())
			c.Eval(1)
		},
	})
	sp = append(sp, largeHistories(e)...)
	return sp
}

// combineSparse is combineRef for arbitrary indices in ascending order.
func combineSparse(kind int, idx []int, ds map[int]*ref.Dealing) *sharing {
	coef := ref.LagrangeAt(ref.I(0), ref.Nodes(idx))
	s := &sharing{summed: kind == ref.KRandom}
	var vs, ms []ref.Poly
	for i, d := range idx {
		if kind == ref.KRandom {
			coef[i] = ref.I(1)
		}
		vs = append(vs, ds[d].Values)
		if ds[d].Mask != nil {
			ms = append(ms, ds[d].Mask)
		}
	}
	s.v = ref.CombinePolys(coef, vs)
	if ms != nil {
		s.ped, s.m = true, ref.CombinePolys(coef, ms)
	}
	s.com = ref.Commit(s.v, s.m, len(s.v))
	return s
}

// held is a sharing held by library objects together with its model.
type held struct {
	m  *sharing
	l  libStep
	ns []fx.Node
}

// libSecret builds a dealer's input from library openings.
func libSecret(kind int, a, b poly.CommitmentOpening) dealings.SecretShares {
	switch kind {
	case ref.KUnmasked:
		return &dealings.ReshareOfUnmaskedSecret{S1: a.(poly.SimpleCommitmentOpening)[0]}
	case ref.KMasked:
		x := a.(poly.PedersenCommitmentOpening)
		return &dealings.ReshareOfMaskedSecret{S1: x[0], S2: x[1]}
	case ref.KProduct:
		return &dealings.UnmaskedTimesMaskedSecret{Left: a.(poly.SimpleCommitmentOpening)[0], Right: b.(poly.PedersenCommitmentOpening)}
	}
	return &dealings.RandomSecret{}
}

// run performs an operation on held sharings.
func runHeld(c *explore.Ctx, s stepSpec, form int, a, b *held, ns []fx.Node) *held {
	src := func(h *held) poly.PolynomialCommitment {
		if form == 1 {
			return h.l.tr.CombinedCommitment.Clone()
		}
		return h.l.tr.CombinedCommitment
	}
	var op dealings.IDkgTranscriptOperationInternal
	secrets := map[int]dealings.SecretShares{}
	for _, d := range s.dealers {
		var x, y poly.CommitmentOpening
		if a != nil {
			x = a.l.opens[d]
		}
		if b != nil {
			y = b.l.opens[d]
		}
		secrets[d] = libSecret(s.o.kind, x, y)
	}
	switch s.o.kind {
	case ref.KRandom:
		op = &dealings.RandomTranscript{}
	case ref.KUnmasked:
		op = &dealings.ReshareOfUnmaskedTranscript{P1: src(a)}
	case ref.KMasked:
		op = &dealings.ReshareOfMaskedTranscript{P1: src(a)}
	case ref.KProduct:
		op = &dealings.UnmaskedTimesMaskedTranscript{Left: src(a), Right: src(b)}
	}
	after, want := refStep(s)
	l := step(c, s, after, ns, op, secrets)
	checkSecret(c, s, l, after, want)
	c.State(after.show())
	c.Step(1)
	c.Eval(1)
	return &held{after, l, ns}
}

// libChain: mask := random; key := random; key' := reshare masked; product of
// key' and mask; and a final step on the product or on key'.
func libChain(c *explore.Ctx, e Env) {
	n := 3
	ns := fx.Nodes(e.Label("chain"), n)
	ad := []byte("chain")
	var key *held
	trail := ""
	form := c.Choose("source form", 2)
	mk := func(label string, o operation, t int) stepSpec {
		need := o.need()
		if need > n {
			c.Skip()
		}
		subs := fx.Subsets(n, need, need)
		if o.kind == ref.KRandom {
			subs = [][]int{{0, 2}}
		}
		s := stepSpec{label: e.Label("chain", label), o: o, t: t, n: n, ad: ad, verify: true, dealers: subs[c.Choose(label+" dealers", len(subs))]}
		trail += s.show() + ";"
		return s
	}
	tk := 1 + c.Choose("key threshold", 2)
	tm := 2 - c.Choose("mask threshold", Pick(e, 1, 2))
	tu := 1 + c.Choose("reshared threshold", 2)
	key = runHeld(c, mk("key", operation{kind: ref.KRandom}, tk), form, nil, nil, ns)
	mask := runHeld(c, mk("mask", operation{kind: ref.KRandom}, tm), form, nil, nil, ns)
	un := runHeld(c, mk("reshare", operation{kind: ref.KMasked, p1: key.m}, tu), form, key, nil, ns)
	switch c.Choose("then", 3) {
	case 0:
		pr := runHeld(c, mk("product", operation{kind: ref.KProduct, p1: un.m, p2: mask.m}, 2), form, un, mask, ns)
		runHeld(c, mk("open product", operation{kind: ref.KMasked, p1: pr.m}, 1), form, pr, nil, ns)
	case 1:
		un2 := runHeld(c, mk("reshare again", operation{kind: ref.KUnmasked, p1: un.m}, 3-tu), form, un, nil, ns)
		runHeld(c, mk("product", operation{kind: ref.KProduct, p1: un2.m, p2: mask.m}, 1), form, un2, mask, ns)
	case 2: // the key times its own mask, twice
		pr := runHeld(c, mk("square", operation{kind: ref.KProduct, p1: un.m, p2: key.m}, 2), form, un, key, ns)
		runHeld(c, mk("cube", operation{kind: ref.KProduct, p1: un.m, p2: pr.m}, 1), form, un, pr, ns)
	}
	c.Key(form, trail)
}
