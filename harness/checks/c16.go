package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C16",
		Level: "exploration",
		Rule: "one execution is one pair of polynomials with a size, one commitment evaluated at an index, one opening offered at an index, or one pair of commitments; every answer is " +
			"compared with an independent group implementation; distinct means distinct inputs",
		Assume: []string{"no discrete logarithm between the two generators is known, so an opening other than the committed one is never valid", "math/big and btcec are correct"},
		Spaces: c16Spaces,
	})
}

// observeCommitment compares a library commitment with its points.
func observeCommitment(c *explore.Ctx, what string, x poly.PolynomialCommitment, pedersen bool, ps []ref.P) {
	c.Check(fx.CommitEq(x, pedersen, ps), "commitment", "%s is %s, want %s", what, showCommitment(x), showPoints(pedersen, ps))
	if len(ps) == 0 {
		return
	}
	tag := byte('S')
	if pedersen {
		tag = 'P'
	}
	want := []byte{tag, 1}
	for _, p := range ps {
		want = append(want, p.Bytes()...)
	}
	c.Check(bytes.Equal(x.StableRepresentation(), want), "stable representation", "%s: %x, want %x", what, x.StableRepresentation(), want)
	c.Check(fx.PEq(x.ConstantTerm(), ps[0]), "constant term", "%s: constant term %x", what, x.ConstantTerm().Serialize())
	c.Check(x.CurveType() == fx.K, "curve", "%s: curve", what)
	other := poly.Pedersen
	own := poly.Simple
	if pedersen {
		other, own = own, other
	}
	c.Check(x.VerifyIs(own, fx.K) == nil && x.VerifyIs(other, fx.K) != nil && x.VerifyIs(own, fx.K+1) != nil, "kind", "%s: VerifyIs", what)
	c.Eval(5)
}

func showCommitment(x poly.PolynomialCommitment) string {
	if x == nil {
		return "nil"
	}
	s := fmt.Sprintf("type %d", x.Type())
	for _, p := range x.Points() {
		s += fmt.Sprintf(" %x", p.Serialize())
	}
	return s
}

func showPoints(pedersen bool, ps []ref.P) string {
	s := "type 1"
	if pedersen {
		s = "type 2"
	}
	for _, p := range ps {
		s += fmt.Sprintf(" %x", p.Bytes())
	}
	return s
}

func c16Spaces(e Env) []*explore.Space {
	rnd := randScalar(e, "commit", 0)
	alpha := []*big.Int{ref.I(0), ref.I(1), ref.Neg(ref.I(1)), rnd}
	vs := vectors(alpha, 0, 3)
	vp := vectors(alpha[:Pick(e, 3, 4)], 0, Pick(e, 2, 3))
	if !e.Thorough {
		vp = append(vp, ref.Poly{rnd, ref.I(0), ref.I(1)}, ref.Poly{ref.I(0), rnd, ref.I(0)}, ref.Poly{ref.I(0), ref.I(0), ref.I(0)})
	}
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "create-simple", Bound: fmt.Sprintf("%d coefficient vectors (length 0..3) x sizes -1..5", len(vs)),
		Run: func(c *explore.Ctx) {
			v := vs[c.Choose("values", len(vs))]
			n := c.Choose("size", 7) - 1
			x := lpoly(v)
			c.Key(hexes(v), n)
			ok := len(v.Norm()) <= n
			cm, err := poly.SimpleCM.Create(x, n)
			c.Check((err == nil) == ok, "acceptance", "committing to %s with %d coefficients: %s", hexes(v), n, errStr(err))
			observePoly(c, "polynomial after committing", x, v)
			if ok {
				observeCommitment(c, fmt.Sprintf("commitment to %s with %d coefficients", hexes(v), n), cm, false, ref.Commit(v, nil, n))
			}
		},
	}, &explore.Space{
		Name: "create-pedersen", Bound: fmt.Sprintf("all pairs of %d coefficient vectors (length 0..3) x sizes -1..4", len(vp)),
		Run: func(c *explore.Ctx) {
			v, m := vp[c.Choose("values", len(vp))], vp[c.Choose("masks", len(vp))]
			n := c.Choose("size", 6) - 1
			x, y := lpoly(v), lpoly(m)
			c.Key(hexes(v), hexes(m), n)
			ok := len(v.Norm()) <= n && len(m.Norm()) <= n
			cm, err := poly.PedersenCM.Create(x, y, n)
			c.Check((err == nil) == ok, "acceptance", "committing to %s masked by %s with %d coefficients: %s", hexes(v), hexes(m), n, errStr(err))
			observePoly(c, "values after committing", x, v)
			observePoly(c, "masks after committing", y, m)
			if ok {
				if m == nil {
					m = ref.Poly{}
				}
				observeCommitment(c, fmt.Sprintf("commitment to %s masked by %s with %d coefficients", hexes(v), hexes(m), n), cm, true, ref.Commit(v, m, n))
			}
		},
	})
	pa := pointAlphabet(e)
	half := len(pa) / 2
	small := []pointVal{pa[0], pa[1], pa[half+2], pa[half+5]}
	if e.Thorough {
		small = append(small, pa[4], pa[half+1], pa[half])
	}
	idx := []int{0, 1, 2, 3, 7, 8, 15, 255, 256, 65535, 1<<31 - 1, 1<<32 - 1, 1<<62 - 1}
	sp = append(sp, &explore.Space{
		Name: "evaluate", Bound: fmt.Sprintf("all commitments of 1..3 points out of %d (both kinds) at %d indices", len(small), len(idx)),
		Run: func(c *explore.Ctx) {
			ped := c.Bool("pedersen")
			n := c.Choose("points", 3) + 1
			cm, ps, name := chooseCommitment(c, ped, n, small)
			i := idx[c.Choose("index", len(idx))]
			c.Key(name, i)
			want := ref.CommitAt(ps, i)
			observePoint(c, fmt.Sprintf("%s at index %d", name, i), cm.EvaluateAt(common.NodeIndex(i)), want)
			observeCommitment(c, "commitment after evaluation", cm, ped, ps)
			t := cm.ConstantTerm()
			t.AddPoints(t, t)
			observeCommitment(c, "commitment after its constant term was changed", cm, ped, ps)
		},
	}, &explore.Space{
		Name: "equality", Bound: fmt.Sprintf("all pairs of commitments of 1..2 points out of %d in both kinds and several representations", len(small)),
		Run: func(c *explore.Ctx) {
			p1, p2 := c.Bool("pedersen"), c.Bool("pedersen2")
			a, ap, an := chooseCommitment(c, p1, c.Choose("points", 2)+1, small)
			b, bp, bn := chooseCommitment(c, p2, c.Choose("points2", 2)+1, small)
			same := p1 == p2 && len(ap) == len(bp)
			for i := range ap {
				same = same && ap[i].Equal(bp[i])
			}
			c.Key(an, bn)
			c.Check((a.Equal(b) == 1) == same && a.Equal(b) == b.Equal(a), "Equal", "%s and %s: equal = %d, %d", an, bn, a.Equal(b), b.Equal(a))
			c.Check(bytes.Equal(a.StableRepresentation(), b.StableRepresentation()) == same, "stable representation", "%s and %s share a representation: %v", an, bn, !same)
			cl := a.Clone()
			observeCommitment(c, "clone", cl, p1, ap)
			c.Check(cl.Equal(a) == 1, "Equal", "clone differs")
			cl.Points()[0].AddPoints(cl.Points()[0], fx.Pt(ref.G))
			observeCommitment(c, "original after its clone changed", a, p1, ap)
			c.Check(cl.Equal(a) != 1 && a.Equal(cl) != 1, "Equal", "a commitment equals one with another point")
		},
	}, &explore.Space{
		Name: "equality-last-point", Bound: "commitments of 1..6 points which differ in exactly one position, or are prefixes of each other",
		Run: func(c *explore.Ctx) {
			ped := c.Bool("pedersen")
			n := c.Choose("points", 6) + 1
			i := c.Choose("position", n)
			ps := make([]ref.P, n)
			for j := range ps {
				ps[j] = ref.MulG(ref.I(int64(j + 2)))
			}
			a := fx.Commitment(ped, ps)
			qs := append([]ref.P{}, ps...)
			switch c.Choose("change", 4) {
			case 0:
				qs[i] = qs[i].Neg()
			case 1:
				qs[i] = ref.Identity()
			case 2:
				qs = qs[:i]
				if i == 0 {
					c.Skip()
				}
			case 3:
				qs[i], qs[(i+1)%n] = qs[(i+1)%n], qs[i]
				if n == 1 {
					c.Skip()
				}
			}
			b := fx.Commitment(ped, qs)
			c.Check(a.Equal(b) != 1 && b.Equal(a) != 1, "Equal", "%s equals %s", showPoints(ped, ps), showPoints(ped, qs))
			c.Check(!bytes.Equal(a.StableRepresentation(), b.StableRepresentation()), "stable representation", "%s and %s share a representation", showPoints(ped, ps), showPoints(ped, qs))
		},
	}, &explore.Space{
		Name: "openings", Bound: "commitments to 1..4 coefficients (random, zero or boundary polynomials), every index in the alphabet, correct openings and every altered, swapped, wrong-kind or missing opening",
		Run: func(c *explore.Ctx) { openingsSpace(c, e, idx) },
	})
	return sp
}

func chooseCommitment(c *explore.Ctx, ped bool, n int, from []pointVal) (poly.PolynomialCommitment, []ref.P, string) {
	ps := make([]ref.P, n)
	lp := make([]curve.EccPoint, n)
	name := fmt.Sprintf("pedersen=%v", ped)
	for i := range ps {
		v := from[c.Choose("point", len(from))]
		ps[i], lp[i] = v.p, v.make()
		name += " " + v.name
	}
	if ped {
		return poly.PedersenCM.New(lp), ps, name
	}
	return poly.SimpleCM.New(lp), ps, name
}

func openingsSpace(c *explore.Ctx, e Env, idx []int) {
	ped := c.Bool("pedersen")
	n := c.Choose("coefficients", 4) + 1
	shape := c.Choose("shape", 4)
	mk := func(label string) ref.Poly {
		p := make(ref.Poly, n)
		for i := range p {
			p[i] = randScalar(e, label, i)
			switch shape {
			case 1:
				p[i] = ref.I(0)
			case 2:
				p[i] = ref.Neg(ref.I(1))
			case 3:
				if i > 0 {
					p[i] = ref.I(0)
				}
			}
		}
		return p
	}
	v := mk("open v")
	var m ref.Poly
	if ped {
		m = mk("open m")
	}
	ps := ref.Commit(v, m, n)
	cm := fx.Commitment(ped, ps)
	i := idx[c.Choose("index", len(idx))]
	x := new(big.Int).Add(big.NewInt(int64(i)), big.NewInt(1))
	val := v.Eval(x)
	mask := ref.I(0)
	if ped {
		mask = m.Eval(x)
	}
	one := ref.I(1)
	var o poly.CommitmentOpening
	ok := false
	k := c.Choose("opening", 14)
	good := []*big.Int{val}
	if ped {
		good = append(good, mask)
	}
	switch k {
	case 0:
		o, ok = fx.Opening(good), true
	case 1:
		o, ok = fx.OpeningPtr(good), true
	case 2:
		good[0] = ref.Add(val, one)
		o = fx.Opening(good)
	case 3:
		good[len(good)-1] = ref.Sub(good[len(good)-1], one)
		o = fx.OpeningPtr(good)
	case 4:
		good[0] = ref.Neg(val)
		o, ok = fx.Opening(good), val.Sign() == 0
	case 5: // the value at the next index
		y := new(big.Int).Add(x, one)
		g := []*big.Int{v.Eval(y)}
		ok = v.Eval(y).Cmp(val) == 0
		if ped {
			g = append(g, m.Eval(y))
			ok = ok && m.Eval(y).Cmp(mask) == 0
		}
		o = fx.Opening(g)
	case 6: // the other kind, value only or with a zero mask
		if ped {
			o = fx.Opening([]*big.Int{val})
		} else {
			o = fx.Opening([]*big.Int{val, ref.I(0)})
		}
	case 7:
		if ped {
			o = fx.OpeningPtr([]*big.Int{val})
		} else {
			o = fx.OpeningPtr([]*big.Int{val, ref.I(0)})
		}
	case 8:
		if !ped {
			c.Skip()
		}
		o, ok = fx.Opening([]*big.Int{mask, val}), mask.Cmp(val) == 0
	case 9:
		if !ped {
			c.Skip()
		}
		o, ok = fx.Opening([]*big.Int{val, ref.I(0)}), mask.Sign() == 0
	case 10:
		o = nil
	case 11:
		o = (*poly.SimpleCommitmentOpening)(nil)
		if ped {
			o = (*poly.PedersenCommitmentOpening)(nil)
		}
	case 12: // the constant term's opening
		g := []*big.Int{v[0]}
		ok = v[0].Cmp(val) == 0
		if ped {
			g = append(g, m[0])
			ok = ok && m[0].Cmp(mask) == 0
		}
		o = fx.Opening(g)
	case 13: // sum kept: value+1, mask-1
		if !ped {
			c.Skip()
		}
		o = fx.Opening([]*big.Int{ref.Add(val, one), ref.Sub(mask, one)})
	}
	c.Key(ped, n, shape, i, k)
	before := fx.Fingerprint(o)
	got := cm.CheckOpening(common.NodeIndex(i), o)
	c.Outcome(got, k)
	c.Check(got == ok, "acceptance", "opening variant %d of a commitment (pedersen %v, %d coefficients, shape %d) at index %d: accepted=%v, want %v", k, ped, n, shape, i, got, ok)
	r, err := cm.ReturnOpeningIfConsistent(common.NodeIndex(i), o)
	c.Check((err == nil) == ok, "acceptance", "ReturnOpeningIfConsistent variant %d: %s, want accepted=%v", k, errStr(err), ok)
	if ok {
		want := []*big.Int{val}
		if ped {
			want = append(want, mask)
		}
		c.Check(fx.OpEq(r, want), "returned opening", "another opening is returned")
	}
	c.Check(fx.Fingerprint(o) == before, "input changed", "the opening was changed")
	observeCommitment(c, "commitment after checking an opening", cm, ped, ps)
	c.Eval(2)
}
