package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

// pointVal is a point together with the way it is represented inside the library.
type pointVal struct {
	name string
	p    ref.P
	make func() curve.EccPoint
}

// pointAlphabet lists points in several internal representations.
func pointAlphabet(e Env) []pointVal {
	r := ref.MulG(randScalar(e, "point", 0))
	base := []struct {
		n string
		p ref.P
	}{{"O", ref.Identity()}, {"G", ref.G}, {"-G", ref.G.Neg()}, {"2G", ref.G.Add(ref.G)}, {"H", ref.H}, {"R", r}, {"-R", r.Neg()}, {"x>=N", wideX()}}
	if e.Thorough {
		base = append(base, []struct {
			n string
			p ref.P
		}{{"-H", ref.H.Neg()}, {"G+H", ref.G.Add(ref.H)}, {"3G", ref.MulG(ref.I(3))}, {"(N-1)/2 G", ref.MulG(ref.HalfN)}, {"R+G", r.Add(ref.G)}, {"2R", r.Add(r)}}...)
	}
	var out []pointVal
	for _, b := range base {
		p := b.p
		out = append(out, pointVal{b.n, p, func() curve.EccPoint { return fx.Pt(p) }})
	}
	for _, b := range base {
		p := b.p
		out = append(out, pointVal{b.n + "'", p, func() curve.EccPoint { return fx.Rebase(fx.Pt(p)) }})
	}
	return out
}

// wideX is the point with the least x coordinate which is not below the order.
func wideX() ref.P {
	for x := ref.N; ; x = new(big.Int).Add(x, ref.I(1)) {
		rhs := new(big.Int).Exp(x, ref.I(3), ref.FP)
		if y, ok := ref.FSqrt(bmod(ref.FP, rhs.Add(rhs, ref.I(7)))); ok {
			return ref.P{X: x, Y: y}
		}
	}
}

// observePoint compares every observation of a library point with the reference.
func observePoint(c *explore.Ctx, what string, x curve.EccPoint, p ref.P) {
	c.Check(x != nil, "nil result", "%s is nil", what)
	got := x.Serialize()
	c.Check(bytes.Equal(got, p.Bytes()), "value", "%s is %x, want %x", what, got, p.Bytes())
	c.Check(x.IsInfinity() == p.IsIdentity(), "IsInfinity", "%s: IsInfinity = %v for %x", what, x.IsInfinity(), p.Bytes())
	if !p.IsIdentity() {
		c.Check(bytes.Equal(x.AffineX().AsBytes(), ref.Bytes32(p.X)) && bytes.Equal(x.AffineY().AsBytes(), ref.Bytes32(p.Y)), "affine coordinates", "%s: affine coordinates %x %x, want %x %x", what, x.AffineX().AsBytes(), x.AffineY().AsBytes(), p.X, p.Y)
	}
	c.Check(x.Equal(fx.Pt(p)) == 1 && fx.Pt(p).Equal(x) == 1, "Equal", "%s does not equal the point %x", what, p.Bytes())
	c.Eval(4)
}

func scalarsForMul(e Env) []*big.Int {
	l := append([]*big.Int{}, scalarAlphabet(e)...)
	one := big.NewInt(1)
	step := uint(Pick(e, 4, 1))
	for i := uint(0); i < 256; i += step {
		v := new(big.Int).Lsh(one, i)
		l = append(l, ref.Mod(v), ref.Mod(new(big.Int).Sub(v, one)), ref.Neg(v))
	}
	for i := int64(4); i < int64(Pick(e, 70, 300)); i++ {
		l = append(l, ref.I(i))
	}
	return l
}

func init() {
	register(&Check{
		ID:    "C14",
		Level: "model_checking",
		Rule: "one evaluation is one comparison of an observation of a library point (encoding, affine coordinates, identity test, equality) with an independent big-integer " +
			"implementation of the group; distinct means distinct operation, operands, representation and aliasing",
		Assume: []string{"math/big and btcec compute the reference correctly", "operands outside the listed alphabets behave like those inside"},
		Spaces: c14Spaces,
	})
}

func c14Spaces(e Env) []*explore.Space {
	pts := pointAlphabet(e)
	scs := scalarAlphabet(e)
	muls := scalarsForMul(e)
	half := len(pts) / 2
	few := []*big.Int{ref.I(0), ref.I(1), ref.I(2), ref.Neg(ref.I(1)), ref.HalfN, randScalar(e, "few", 1)}
	if e.Thorough {
		few = scs
	}
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name:  "add-sub-double",
		Bound: fmt.Sprintf("addition, subtraction, doubling, assignment over all pairs of %d points (two internal representations each) and all aliasing patterns", len(pts)),
		Run: func(c *explore.Ctx) {
			op := c.Choose("op", 4)
			a := pts[c.Choose("left", len(pts))]
			b := a
			n := 2
			if op < 2 {
				bi := c.Choose("right", len(pts))
				b = pts[bi]
				n = 3
				if b.name == a.name {
					n = 5
				}
			}
			pattern := c.Choose("aliasing", n)
			names := []string{"distinct", "destination is left", "destination is right", "operands shared", "all shared"}
			l, r := a.make(), b.make()
			d := fx.Rebase(fx.Pt(ref.MulG(ref.I(1234567))))
			switch pattern {
			case 1:
				d = l
			case 2:
				d = r
			case 3:
				r = l
			case 4:
				d, r = l, l
			}
			var res curve.EccPoint
			var want ref.P
			opn := []string{"add", "sub", "double", "assign"}[op]
			switch op {
			case 0:
				res, want = d.AddPoints(l, r), a.p.Add(b.p)
			case 1:
				res, want = d.SubPoints(l, r), a.p.Sub(b.p)
			case 2:
				res, want = d.Double(l), a.p.Add(a.p)
			case 3:
				res, want = d.Assign(l), a.p
			}
			c.Key(opn, a.name, b.name, pattern)
			what := fmt.Sprintf("%s(%s, %s) [%s]", opn, a.name, b.name, names[pattern])
			observePoint(c, "result of "+what, res, want)
			observePoint(c, "destination of "+what, d, want)
			if l != d {
				observePoint(c, "left operand after "+what, l, a.p)
			}
			if r != d {
				observePoint(c, "right operand after "+what, r, b.p)
			}
			if res == l && d != l {
				c.Fail("result storage", "%s returns its operand", what)
			}
		},
	}, &explore.Space{
		Name: "equality", Bound: "equality of all pairs of points in all representations; clones",
		Run: func(c *explore.Ctx) {
			a := pts[c.Choose("a", len(pts))]
			b := pts[c.Choose("b", len(pts))]
			x, y := a.make(), b.make()
			c.Check((x.Equal(y) == 1) == a.p.Equal(b.p), "Equal", "%s equals %s: %d", a.name, b.name, x.Equal(y))
			cl := x.Clone()
			observePoint(c, "clone of "+a.name, cl, a.p)
			if c.Bool("change clone") {
				cl.AddPoints(cl, y)
				observePoint(c, "original after its clone changed", x, a.p)
			} else {
				x.AddPoints(x, y)
				observePoint(c, "clone after its original changed", cl, a.p)
			}
			observePoint(c, "operand", y, b.p)
		},
	}, &explore.Space{
		Name: "scalar-multiplication", Bound: fmt.Sprintf("%d scalars (all powers of two and neighbours in the bound, small, boundary) x all points x aliasing", len(muls)),
		Run: func(c *explore.Ctx) {
			var a pointVal
			k := muls[c.Choose("scalar", len(muls))]
			if ref.I(1).Cmp(k) < 0 && k.BitLen() < 60 || isAlpha(scs, k) {
				a = pts[c.Choose("point", len(pts))]
			} else {
				a = pts[[]int{1, half - 2, 2*half - 2}[c.Choose("point", 3)]]
			}
			pattern := c.Choose("aliasing", 2)
			x, s := a.make(), fx.S(k)
			d := fx.Rebase(fx.Pt(ref.H))
			if pattern == 1 {
				d = x
			}
			res := d.ScalarMul(x, s)
			what := fmt.Sprintf("%x * %s (aliasing %d)", k, a.name, pattern)
			c.Key("mul", k, a.name, pattern)
			want := a.p.Mul(k)
			observePoint(c, what, res, want)
			observePoint(c, "destination of "+what, d, want)
			if pattern == 0 {
				observePoint(c, "operand of "+what, x, a.p)
			}
			c.Check(fx.SEq(s, k), "input changed", "scalar of %s changed", what)
			if a.name == "G" && pattern == 0 {
				observePoint(c, "MulByG "+what, curve.Point.MulByG(s), want)
				c.Check(fx.SEq(s, k), "input changed", "scalar of MulByG changed")
			}
		},
	}, &explore.Space{
		Name: "node-index-multiplication", Bound: fmt.Sprintf("all indices 0..%d and boundary ones x all points", Pick(e, 300, 2000)),
		Run: func(c *explore.Ctx) {
			n := Pick(e, 300, 2000)
			bounds := []int{65534, 65535, 65536, 1<<31 - 2, 1<<31 - 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1<<63 - 2}
			i := c.Choose("index", n+1+len(bounds))
			var a pointVal
			if i <= 40 || i > n {
				a = pts[c.Choose("point", len(pts))]
			} else {
				a = pts[[]int{1, 2*half - 2}[c.Choose("point", 2)]]
			}
			idx := i
			if i > n {
				idx = bounds[i-n-1]
			}
			x := a.make()
			want := a.p.Mul(new(big.Int).Add(big.NewInt(int64(idx)), big.NewInt(1)))
			c.Key("node", idx, a.name)
			observePoint(c, fmt.Sprintf("%s times node index %d", a.name, idx), x.MulByNodeIndex(common.NodeIndex(idx)), want)
			observePoint(c, "operand", x, a.p)
		},
	}, &explore.Space{
		Name: "linear-combination", Bound: fmt.Sprintf("two-term combination over all pairs of %d points and %d x %d scalars", half, len(few), len(few)),
		Run: func(c *explore.Ctx) {
			a := pts[c.Choose("p", half)+half*c.Choose("representation", 2)]
			b := pts[c.Choose("q", half)]
			k, m := few[c.Choose("k", len(few))], few[c.Choose("m", len(few))]
			x, y, s, t := a.make(), b.make(), fx.S(k), fx.S(m)
			want := ref.MulPoints(a.p, k, b.p, m)
			c.Key("lincomb", a.name, b.name, k, m)
			what := fmt.Sprintf("%x * %s + %x * %s", k, a.name, m, b.name)
			shared := a.name == b.name && c.Bool("same object")
			if shared {
				y = x
			}
			observePoint(c, what, curve.Point.MulPoints(x, s, y, t), want)
			observePoint(c, "left operand of "+what, x, a.p)
			observePoint(c, "right operand of "+what, y, b.p)
			c.Check(fx.SEq(s, k) && fx.SEq(t, m), "input changed", "scalars of %s changed", what)
		},
	}, &explore.Space{
		Name: "linear-combination-destination", Bound: "LinComb into a destination which is one of the operands, all points in the alphabet",
		Run: func(c *explore.Ctx) {
			a := pts[c.Choose("p", half)]
			b := pts[c.Choose("q", half)]
			k, m := randScalar(e, "lk"), few[c.Choose("m", len(few))]
			x, y, s, t := a.make(), b.make(), fx.S(k), fx.S(m)
			d := fx.Rebase(fx.Pt(ref.H))
			switch c.Choose("destination", 3) {
			case 1:
				d = x
			case 2:
				d = y
			}
			want := ref.MulPoints(a.p, k, b.p, m)
			observePoint(c, "LinComb", d.(*curve.Secp256k1Point).LinComb(x, s, y, t), want)
			observePoint(c, "destination", d, want)
			if d != x {
				observePoint(c, "left operand", x, a.p)
			}
			if d != y {
				observePoint(c, "right operand", y, b.p)
			}
		},
	}, &explore.Space{
		Name: "pedersen", Bound: "Pedersen commitments over all pairs of boundary scalars; generators",
		Run: func(c *explore.Ctx) {
			k, m := scs[c.Choose("value", len(scs))], scs[c.Choose("mask", len(scs))]
			s, t := fx.S(k), fx.S(m)
			if k.Cmp(m) == 0 && c.Bool("same object") {
				t = s
			}
			observePoint(c, fmt.Sprintf("Pedersen(%x, %x)", k, m), curve.Point.Pedersen(s, t), ref.Pedersen(k, m))
			c.Check(fx.SEq(s, k) && fx.SEq(t, m), "input changed", "scalars changed")
			if k.Sign() == 0 && m.Sign() == 0 {
				observePoint(c, "G", curve.Point.GeneratorG(fx.K), ref.G)
				observePoint(c, "H", curve.Point.GeneratorH(fx.K), ref.H)
				observePoint(c, "identity", curve.Point.Identity(fx.K), ref.Identity())
				g := curve.Point.GeneratorG(fx.K)
				g.AddPoints(g, g)
				h := curve.Point.GeneratorH(fx.K)
				h.AddPoints(h, g)
				observePoint(c, "G after changing a returned G", curve.Point.GeneratorG(fx.K), ref.G)
				observePoint(c, "H after changing a returned H", curve.Point.GeneratorH(fx.K), ref.H)
			}
		},
	})
	inits := [][]ref.P{{ref.G, ref.H, ref.Identity()}, {ref.Identity(), ref.G, ref.G.Neg()}, {ref.G, ref.G.Neg(), ref.H}}
	prog := func(regs, depth int) *explore.Space {
		return &explore.Space{
			Name:  fmt.Sprintf("programs-%dx%d", regs, depth),
			Bound: fmt.Sprintf("all programs of %d operations (add, sub, double, assign, node multiple, scalar multiple) over %d shared registers from %d initial assignments", depth, regs, len(inits)),
			Run: func(c *explore.Ctx) {
				in := inits[c.Choose("init", len(inits))]
				lib := make([]curve.EccPoint, regs)
				mod := make([]ref.P, regs)
				for i := range lib {
					mod[i], lib[i] = in[i], fx.Pt(in[i])
				}
				trace := ""
				for step := 0; step < depth; step++ {
					op := c.Choose("op", 6)
					d, l := c.Choose("dst", regs), c.Choose("left", regs)
					q := l
					if op < 2 {
						q = c.Choose("right", regs)
					}
					var res curve.EccPoint
					var want ref.P
					switch op {
					case 0:
						res, want = lib[d].AddPoints(lib[l], lib[q]), mod[l].Add(mod[q])
					case 1:
						res, want = lib[d].SubPoints(lib[l], lib[q]), mod[l].Sub(mod[q])
					case 2:
						res, want = lib[d].Double(lib[l]), mod[l].Add(mod[l])
					case 3:
						res, want = lib[d].Assign(lib[l]), mod[l]
					case 4:
						if d == l {
							c.Skip()
						}
						lib[d] = lib[l].MulByNodeIndex(2)
						res, want = lib[d], mod[l].Mul(ref.I(3))
					case 5:
						res, want = lib[d].ScalarMul(lib[l], fx.S(ref.I(5))), mod[l].Mul(ref.I(5))
					}
					mod[d] = want
					trace += fmt.Sprintf(" r%d=op%d(r%d,r%d)", d, op, l, q)
					c.Step(1)
					c.Check(fx.PEq(res, want), "returned value", "after%s: returned %x want %x", trace, res.Serialize(), want.Bytes())
					key := ""
					for i := range lib {
						c.Check(fx.PEq(lib[i], mod[i]), "register value", "after%s: register %d is %x, want %x", trace, i, lib[i].Serialize(), mod[i].Bytes())
						key += string(mod[i].Bytes())
					}
					c.State(key)
					c.Eval(regs + 1)
				}
				c.Key(trace, fmt.Sprintf("%x", in[0].Bytes()))
			},
		}
	}
	sp = append(sp, prog(2, 3), prog(3, 2))
	if e.Thorough {
		sp = append(sp, prog(2, 4))
	}
	return sp
}

func isAlpha(l []*big.Int, v *big.Int) bool {
	for _, x := range l {
		if x.Cmp(v) == 0 {
			return true
		}
	}
	return false
}
