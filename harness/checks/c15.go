package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C15",
		Level: "model_checking",
		Rule: "one evaluation is one comparison of a coefficient, a value or an interpolation result with big-integer polynomial arithmetic; an execution is one operation (or program, " +
			"sample sequence, index sequence); distinct means distinct inputs and aliasing",
		Assume: []string{"math/big is correct", "coefficients and abscissas outside the listed alphabets behave like those inside"},
		Spaces: c15Spaces,
	})
}

func lpoly(p ref.Poly) *poly.Polynomial { return poly.Poly.New(fx.K, fx.Ss(p)) }

// observePoly compares a library polynomial with the reference.
func observePoly(c *explore.Ctx, what string, x *poly.Polynomial, p ref.Poly) {
	c.Check(x != nil, "nil result", "%s is nil", what)
	for i := 0; i < len(p)+2; i++ {
		c.Check(fx.SEq(x.Coeff(i), p.Coeff(i)), "coefficient", "%s: coefficient %d is %x, want %x", what, i, x.Coeff(i).Serialize(), p.Coeff(i))
	}
	n := p.Norm()
	c.Check(x.NonZeroCoefficients() == len(n), "degree", "%s: NonZeroCoefficients = %d, want %d for %x", what, x.NonZeroCoefficients(), len(n), []*big.Int(p))
	c.Check((x.IsZero() == 1) == (len(n) == 0), "IsZero", "%s: IsZero = %d for %x", what, x.IsZero(), []*big.Int(p))
	c.Check(x.CurveType() == fx.K, "curve", "%s: curve type", what)
	c.Eval(len(p) + 4)
}

// vectors lists all vectors over an alphabet with length lo..hi.
func vectors(alpha []*big.Int, lo, hi int) []ref.Poly {
	var out []ref.Poly
	for n := lo; n <= hi; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		for k := 0; k < total; k++ {
			v := make(ref.Poly, n)
			for i, r := 0, k; i < n; i++ {
				v[i] = alpha[r%len(alpha)]
				r /= len(alpha)
			}
			out = append(out, v)
		}
	}
	return out
}

func hexes(p []*big.Int) string { return fmt.Sprintf("%x", p) }

func c15Spaces(e Env) []*explore.Space {
	rnd := randScalar(e, "poly", 0)
	alpha := []*big.Int{ref.I(0), ref.I(1), ref.Neg(ref.I(1)), rnd}
	vecs := vectors(alpha, 0, Pick(e, 4, 4))
	scs := scalarAlphabet(e)
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name:  "arithmetic",
		Bound: fmt.Sprintf("addition, multiplication, equality of all pairs of %d coefficient vectors (length 0..%d over {0,1,-1,r}), all aliasing patterns", len(vecs), 4),
		Run: func(c *explore.Ctx) {
			op := c.Choose("op", 3)
			a, b := vecs[c.Choose("left", len(vecs))], vecs[c.Choose("right", len(vecs))]
			x, y := lpoly(a), lpoly(b)
			if op == 2 {
				c.Check((x.Equal(y) == 1) == a.Equal(b), "Equal", "%s equals %s: %d", hexes(a), hexes(b), x.Equal(y))
				c.Check(x.Equal(y) == y.Equal(x), "Equal", "equality of %s and %s is not symmetric", hexes(a), hexes(b))
				observePoly(c, "left operand of equality", x, a)
				observePoly(c, "right operand of equality", y, b)
				return
			}
			n := 3
			if hexes(a) == hexes(b) {
				n = 5
			}
			pat := c.Choose("aliasing", n)
			d := lpoly(ref.Poly{ref.I(3), ref.I(4), ref.I(5), ref.I(6), ref.I(7), ref.I(8), ref.I(9)})
			switch pat {
			case 1:
				d = x
			case 2:
				d = y
			case 3:
				y = x
			case 4:
				d, y = x, x
			}
			var want ref.Poly
			var res *poly.Polynomial
			if op == 0 {
				want, res = a.Add(b), d.Add(x, y)
			} else {
				want, res = a.Mul(b), d.Mul(x, y)
			}
			what := fmt.Sprintf("%s of %s and %s (aliasing %d)", []string{"sum", "product"}[op], hexes(a), hexes(b), pat)
			c.Key(what)
			observePoly(c, what, res, want)
			observePoly(c, "destination of "+what, d, want)
			if x != d {
				observePoly(c, "left operand of "+what, x, a)
			}
			if y != d {
				observePoly(c, "right operand of "+what, y, b)
			}
			// the result must not share coefficients with its operands
			if pat == 0 {
				res.MulScalar(res, fx.S(ref.I(3)))
				observePoly(c, "left operand after the result changed", x, a)
				observePoly(c, "right operand after the result changed", y, b)
			}
		},
	}, &explore.Space{
		Name: "scaling-and-evaluation", Bound: fmt.Sprintf("all %d coefficient vectors x %d scalars (and 5 evaluation points x boundary scalars)", len(vecs), len(scs)),
		Run: func(c *explore.Ctx) {
			a := vecs[c.Choose("poly", len(vecs))]
			s := scs[c.Choose("scalar", len(scs))]
			x, k := lpoly(a), fx.S(s)
			c.Key(hexes(a), s)
			if c.Bool("evaluate") {
				v := x.EvaluateAt(k)
				c.Check(fx.SEq(v, a.Eval(s)), "evaluation", "%s at %x is %x, want %x", hexes(a), s, v.Serialize(), a.Eval(s))
				v.Add(v, fx.S(ref.I(1)))
				observePoly(c, "polynomial after evaluation", x, a)
			} else {
				d := lpoly(ref.Poly{ref.I(3), ref.I(4), ref.I(5), ref.I(6), ref.I(7)})
				al := c.Bool("aliased")
				if al {
					d = x
				}
				res := d.MulScalar(x, k)
				observePoly(c, fmt.Sprintf("%s times %x", hexes(a), s), res, a.Scale(s))
				observePoly(c, "destination", d, a.Scale(s))
				if !al {
					observePoly(c, "operand of scaling", x, a)
				}
			}
			c.Check(fx.SEq(k, s), "input changed", "scalar changed")
			z := poly.Poly.Zero(fx.K)
			observePoly(c, "zero polynomial", z, nil)
			c.Check(fx.SEq(z.EvaluateAt(k), ref.I(0)), "evaluation", "zero polynomial at %x", s)
		},
	})
	inits := [][]ref.Poly{
		{{ref.I(1), rnd}, {ref.I(0), ref.I(1), ref.I(0)}, {}},
		{{rnd}, {}, {ref.I(0), ref.I(0)}},
		{{ref.I(1), ref.I(2), ref.I(3)}, {ref.Neg(ref.I(1)), ref.Neg(ref.I(2)), ref.Neg(ref.I(3))}, {ref.I(5)}},
	}
	regs, depth := 2, Pick(e, 3, 4)
	sp = append(sp, &explore.Space{
		Name: "programs", Bound: fmt.Sprintf("all programs of %d operations (add, mul, scale by 0, -1, 5) over %d shared registers from %d assignments", depth, regs, len(inits)),
		Run: func(c *explore.Ctx) {
			in := inits[c.Choose("init", len(inits))]
			lib := make([]*poly.Polynomial, regs)
			mod := make([]ref.Poly, regs)
			for i := range lib {
				lib[i], mod[i] = lpoly(in[i]), in[i]
			}
			trace := ""
			for s := 0; s < depth; s++ {
				op := c.Choose("op", 5)
				d, l := c.Choose("dst", regs), c.Choose("left", regs)
				r := l
				if op < 2 {
					r = c.Choose("right", regs)
				}
				var res *poly.Polynomial
				var want ref.Poly
				switch op {
				case 0:
					res, want = lib[d].Add(lib[l], lib[r]), mod[l].Add(mod[r])
				case 1:
					res, want = lib[d].Mul(lib[l], lib[r]), mod[l].Mul(mod[r])
				default:
					k := []*big.Int{ref.I(0), ref.Neg(ref.I(1)), ref.I(5)}[op-2]
					res, want = lib[d].MulScalar(lib[l], fx.S(k)), mod[l].Scale(k)
				}
				mod[d] = want
				trace += fmt.Sprintf(" r%d=op%d(r%d,r%d)", d, op, l, r)
				observePoly(c, "returned value after"+trace, res, want)
				key := ""
				for i := range lib {
					observePoly(c, fmt.Sprintf("register %d after%s", i, trace), lib[i], mod[i])
					key += hexes(mod[i].Norm()) + ";"
				}
				c.State(key)
				c.Step(1)
			}
			c.Key(trace, hexes(in[0]))
		},
	})
	absc := []*big.Int{ref.I(0), ref.I(1), ref.I(2), ref.Neg(ref.I(1)), randScalar(e, "abscissa")}
	maxK := Pick(e, 4, 6)
	sp = append(sp, &explore.Space{
		Name:  "interpolation",
		Bound: fmt.Sprintf("all sequences (with repetition) of up to %d abscissas out of %d, every ordinate one of 0, 1, or on a fixed polynomial of degree 0..2", maxK, len(absc)),
		Run: func(c *explore.Ctx) {
			k := c.Choose("samples", maxK+1)
			var f ref.Poly
			if k > 0 {
				f = []ref.Poly{{rnd}, {ref.I(2), rnd}, {rnd, ref.I(0), ref.I(7)}}[c.Choose("curve", 3)]
			}
			var X, Y []*big.Int
			for i := 0; i < k; i++ {
				x := absc[c.Choose("x", len(absc))]
				y := []*big.Int{f.Eval(x), ref.I(0), ref.I(1)}[c.Choose("y", 3)]
				X, Y = append(X, x), append(Y, y)
			}
			interpolateCheck(c, X, Y)
		},
	}, &explore.Space{
		Name: "interpolation-all-orders", Bound: fmt.Sprintf("samples of polynomials of degree 0..%d at %d points in every order, with or without one sample off the curve", Pick(e, 4, 5), Pick(e, 5, 6)),
		Run: func(c *explore.Ctx) {
			n := Pick(e, 5, 6)
			deg := c.Choose("degree", n)
			f := make(ref.Poly, deg+1)
			for i := range f {
				f[i] = randScalar(e, "order", deg, i)
			}
			left := []int{0, 1, 2, 3, 4, 5}[:n]
			left = append([]int{}, left...)
			off := c.Choose("off", 3)
			var X, Y []*big.Int
			for len(left) > 0 {
				j := c.Choose("next", len(left))
				x := ref.I(int64(left[j]))
				left = append(left[:j], left[j+1:]...)
				y := f.Eval(x)
				if off == 1 && len(X) == 0 || off == 2 && len(left) == 0 {
					y = ref.Add(y, ref.I(1))
				}
				X, Y = append(X, x), append(Y, y)
			}
			interpolateCheck(c, X, Y)
		},
	})
	sp = append(sp, &explore.Space{
		Name: "interpolation-large", Bound: fmt.Sprintf("0..%d samples x every degree up to the number of samples x every rotation, and a repeated abscissa at every distance", Pick(e, 12, 20)),
		Run: func(c *explore.Ctx) {
			n := c.Choose("samples", Pick(e, 12, 20)) + 1
			deg := c.Choose("degree", n+1)
			rot := c.Choose("rotation", n)
			f := make(ref.Poly, deg)
			for i := range f {
				f[i] = randScalar(e, "large", i)
			}
			rep := c.Choose("repeat", n)
			var X, Y []*big.Int
			for i := 0; i < n; i++ {
				x := ref.I(int64((i+rot)%n) + 1)
				if rep > 0 && i == n-1 {
					x = X[n-1-rep]
				}
				X, Y = append(X, x), append(Y, f.Eval(x))
			}
			interpolateCheck(c, X, Y)
		},
	})
	maxL := Pick(e, 5, 6)
	pool := []int{0, 1, 2, 3, 4, 5, 6}
	lagValues := []*big.Int{ref.I(0), ref.I(1), ref.I(2), ref.I(5), ref.I(9), ref.Neg(ref.I(1)), randScalar(e, "at")}
	sp = append(sp, &explore.Space{
		Name:  "lagrange",
		Bound: fmt.Sprintf("all sequences with repetition of up to %d node indices out of %d x %d evaluation points", maxL, len(pool), len(lagValues)),
		Run: func(c *explore.Ctx) {
			k := c.Choose("size", maxL+1)
			idx := make([]int, k)
			for i := range idx {
				idx[i] = pool[c.Choose("index", len(pool))]
			}
			lagrangeCheck(c, e, idx, lagValues, k <= 2)
		},
	}, &explore.Space{
		Name: "lagrange-large", Bound: "every subset of 0..9 in ascending order and reversed; boundary indices; all pairs and triples",
		Run: func(c *explore.Ctx) {
			var idx []int
			if c.Bool("boundary") {
				big := []int{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1<<63 - 2}
				m := c.Choose("size", 3) + 1
				for i := 0; i < m; i++ {
					idx = append(idx, big[c.Choose("index", len(big))])
				}
			} else {
				m := c.Choose("subset", 1<<10)
				for i := 0; i < 10; i++ {
					if m>>i&1 == 1 {
						idx = append(idx, i)
					}
				}
				if c.Bool("reversed") {
					for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
						idx[i], idx[j] = idx[j], idx[i]
					}
				}
			}
			lagrangeCheck(c, e, idx, lagValues[:3], false)
		},
	}, &explore.Space{
		Name: "coefficient-lists", Bound: "construction, equality and interpolation with coefficient and sample lists of length 0..4",
		Run: func(c *explore.Ctx) {
			n, m := c.Choose("coefficients", 5), c.Choose("samples", 5)
			mk := func(seed int) []*big.Int {
				out := make([]*big.Int, n)
				for i := range out {
					out[i] = randScalar(e, "list", seed, i)
				}
				return out
			}
			v := mk(0)
			l, err := poly.Lagrange.New(fx.Ss(v))
			c.Check((err == nil) == (n > 0), "acceptance", "%d coefficients: %s", n, errStr(err))
			if err != nil {
				return
			}
			ys := make([]*big.Int, m)
			ps := make([]ref.P, m)
			for i := range ys {
				ys[i] = randScalar(e, "sample", i)
				ps[i] = ref.MulG(ys[i])
			}
			s, err := l.InterpolateScalar(fx.Ss(ys))
			c.Check((err == nil) == (n == m), "acceptance", "%d samples for %d coefficients: %s", m, n, errStr(err))
			p, errP := l.InterpolatePoint(fx.Pts(ps))
			c.Check((errP == nil) == (n == m), "acceptance", "%d points for %d coefficients: %s", m, n, errStr(errP))
			if n == m {
				want := ref.Combine(v, ys)
				observeScalar(c, "interpolated scalar", s, want)
				observePoint(c, "interpolated point", p, ref.MulG(want))
			}
			w := append([]*big.Int{}, v...)
			o := must(poly.Lagrange.New(fx.Ss(w)))
			c.Check(l.Equal(o) == 1, "Equal", "equal coefficient lists differ")
			w[m%n] = ref.Add(w[m%n], ref.I(1))
			o = must(poly.Lagrange.New(fx.Ss(w)))
			c.Check(l.Equal(o) != 1, "Equal", "different coefficient lists are equal")
			o = must(poly.Lagrange.New(fx.Ss(append(append([]*big.Int{}, v...), ref.I(0)))))
			c.Check(l.Equal(o) != 1 && o.Equal(l) != 1, "Equal", "coefficient lists of different length are equal")
		},
	}, &explore.Space{
		Name: "combinations", Bound: "interpolation of 1..3 (thorough 4) samples with every pattern of coefficients and samples out of {0, 1, -1, random, the previous one}, for scalars and points",
		Run: func(c *explore.Ctx) {
			n := 1 + c.Choose("size", Pick(e, 3, 4))
			pick := func(what string, prev []*big.Int) *big.Int {
				switch c.Choose(what, 5) {
				case 0:
					return ref.I(0)
				case 1:
					return ref.I(1)
				case 2:
					return ref.Neg(ref.I(1))
				case 4:
					if len(prev) > 0 {
						return prev[len(prev)-1]
					}
					return ref.I(2)
				}
				return randScalar(e, what, len(prev))
			}
			var v, ys []*big.Int
			for i := 0; i < n; i++ {
				v = append(v, pick("coefficient", v))
				ys = append(ys, pick("sample", ys))
			}
			c.Key(hexes(v), hexes(ys))
			l := must(poly.Lagrange.New(fx.Ss(v)))
			ps := make([]ref.P, n)
			for i := range ys {
				ps[i] = ref.MulG(ys[i])
			}
			want := ref.Combine(v, ys)
			s, err := l.InterpolateScalar(fx.Ss(ys))
			c.Check(err == nil && fx.SEq(s, want), "interpolated value", "coefficients %s of %s: %s", hexes(v), hexes(ys), errStr(err))
			p, err := l.InterpolatePoint(fx.Pts(ps))
			c.Check(err == nil && fx.PEq(p, ref.MulG(want)), "interpolated point", "coefficients %s of the points of %s: %s", hexes(v), hexes(ys), errStr(err))
			c.Eval(2)
		},
	}, &explore.Space{
		Name: "random-polynomials", Bound: "random polynomials with 0..5 coefficients, with and without fixed constant, drawn coefficient by coefficient from the stream",
		Run: func(c *explore.Ctx) {
			n := c.Choose("coefficients", 6)
			label := e.Label("rp", n)
			s, r := fx.LSeed(label)
			rng := r.Rng()
			if c.Bool("constant") {
				k := scs[c.Choose("value", len(scs))]
				ks := fx.S(k)
				x, err := poly.Poly.RandomWithConstant(ks, n, s.Rng())
				c.Check((err == nil) == (n > 0), "acceptance", "constant with %d coefficients: %s", n, errStr(err))
				if err != nil {
					return
				}
				want := ref.Poly{k}
				for len(want) < n {
					want = append(want, rng.Scalar())
				}
				observePoly(c, "random polynomial with constant", x, want)
				c.Check(fx.SEq(ks, k), "input changed", "constant changed")
				return
			}
			want := ref.Poly{}
			for len(want) < n {
				want = append(want, rng.Scalar())
			}
			observePoly(c, "random polynomial", poly.Poly.Random(fx.K, n, s.Rng()), want)
		},
	})
	sp = append(sp, largeInterpolation(e)...)
	return sp
}

func interpolateCheck(c *explore.Ctx, X, Y []*big.Int) {
	c.Key(hexes(X), hexes(Y))
	want, ok := ref.Interpolate(X, Y)
	samples := make([][2]curve.EccScalar, len(X))
	for i := range X {
		samples[i] = [2]curve.EccScalar{fx.S(X[i]), fx.S(Y[i])}
	}
	p, err := poly.Poly.Interpolate(fx.K, samples)
	c.Check((err == nil) == ok, "acceptance", "interpolating x=%s y=%s: %s, want accepted=%v", hexes(X), hexes(Y), errStr(err), ok)
	c.Outcome(ok, len(want.Norm()), len(X))
	for i := range X {
		c.Check(fx.SEq(samples[i][0], X[i]) && fx.SEq(samples[i][1], Y[i]), "input changed", "interpolating x=%s y=%s changed sample %d", hexes(X), hexes(Y), i)
	}
	if !ok {
		return
	}
	c.Check(p != nil, "nil result", "nil polynomial")
	for i := 0; i < len(X)+1; i++ {
		c.Check(fx.SEq(p.Coeff(i), want.Coeff(i)), "coefficient", "interpolating x=%s y=%s: coefficient %d is %x, want %x", hexes(X), hexes(Y), i, p.Coeff(i).Serialize(), want.Coeff(i))
	}
	c.Check(p.NonZeroCoefficients() == len(want.Norm()), "degree", "interpolating x=%s y=%s: degree", hexes(X), hexes(Y))
	for i := range X {
		c.Check(fx.SEq(p.EvaluateAt(samples[i][0]), Y[i]), "does not pass through a sample", "interpolating x=%s y=%s: value at sample %d is %x", hexes(X), hexes(Y), i, p.EvaluateAt(samples[i][0]).Serialize())
	}
	c.Eval(2*len(X) + 2)
}

func lagrangeCheck(c *explore.Ctx, e Env, idx []int, values []*big.Int, points bool) {
	dup := false
	seen := map[int]bool{}
	nodes := make([]common.NodeIndex, len(idx))
	for i, x := range idx {
		dup = dup || seen[x]
		seen[x] = true
		nodes[i] = common.NodeIndex(x)
	}
	c.Key(fmt.Sprint(idx))
	ok := len(idx) > 0 && !dup
	xs := ref.Nodes(idx)
	f := make(ref.Poly, len(idx))
	ys := make([]*big.Int, len(idx))
	for i := range f {
		f[i] = randScalar(e, "lagrange", i)
	}
	for i := range ys {
		ys[i] = f.Eval(xs[i])
	}
	for vi, v := range values {
		val := fx.S(v)
		l, err := poly.Lagrange.AtValue(val, nodes)
		c.Check((err == nil) == ok, "acceptance", "coefficients for %v: %s, want accepted=%v", idx, errStr(err), ok)
		if vi == 0 {
			z, errz := poly.Lagrange.AtZero(fx.K, nodes)
			c.Check((errz == nil) == ok, "acceptance", "coefficients at zero for %v: %s", idx, errStr(errz))
			if ok {
				c.Check(v.Sign() != 0 || z.Equal(l) == 1, "AtZero", "coefficients at zero differ for %v", idx)
			}
		}
		if !ok {
			continue
		}
		want := ref.LagrangeAt(v, xs)
		got := l.Coefficients()
		c.Check(len(got) == len(want), "length", "%d coefficients for %v", len(got), idx)
		for i := range want {
			c.Check(fx.SEq(got[i], want[i]), "coefficient", "coefficient %d for %v at %x is %x, want %x", i, idx, v, got[i].Serialize(), want[i])
		}
		s := fx.Ss(ys)
		r, err := l.InterpolateScalar(s)
		c.Check(err == nil && fx.SEq(r, f.Eval(v)), "interpolated value", "value at %x from %v", v, idx)
		for i := range s {
			c.Check(fx.SEq(s[i], ys[i]) && fx.SEq(got[i], want[i]), "input changed", "interpolation changed its inputs")
		}
		if points {
			ps := make([]ref.P, len(ys))
			for i := range ys {
				ps[i] = ref.MulG(ys[i])
			}
			lp := fx.Pts(ps)
			q, err := l.InterpolatePoint(lp)
			c.Check(err == nil && fx.PEq(q, ref.MulG(f.Eval(v))), "interpolated point", "point at %x from %v", v, idx)
			for i := range lp {
				c.Check(fx.PEq(lp[i], ps[i]) && fx.SEq(got[i], want[i]), "input changed", "point interpolation changed its inputs")
			}
		}
		c.Check(fx.SEq(val, v), "input changed", "evaluation point changed")
		for i, x := range idx {
			c.Check(int(nodes[i]) == x, "input changed", "node indices changed")
		}
		c.Eval(len(want) + 3)
	}
}
