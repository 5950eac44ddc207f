package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/fxamacker/cbor/v2"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

// ring describes one of the two algebras (scalars modulo the order, field
// elements modulo the field prime) with the library behind closures.
type ring struct {
	name string
	m    *big.Int
	make func(*big.Int) any
	val  func(any) *big.Int
	ops  []ringOp
	// check compares every observation of an object with the value.
	observe func(c *explore.Ctx, what string, x any, v *big.Int)
	alpha   []*big.Int
}

type ringOp struct {
	name  string
	arity int
	f     func(dst, l, r any) any
	want  func(m, l, r *big.Int) *big.Int // nil: undefined there
}

func bmod(m, v *big.Int) *big.Int { return new(big.Int).Mod(v, m) }

func opWants() map[string]func(m, l, r *big.Int) *big.Int {
	return map[string]func(m, l, r *big.Int) *big.Int{
		"add": func(m, l, r *big.Int) *big.Int { return bmod(m, new(big.Int).Add(l, r)) },
		"sub": func(m, l, r *big.Int) *big.Int { return bmod(m, new(big.Int).Sub(l, r)) },
		"mul": func(m, l, r *big.Int) *big.Int { return bmod(m, new(big.Int).Mul(l, r)) },
		"neg": func(m, l, r *big.Int) *big.Int { return bmod(m, new(big.Int).Neg(l)) },
		"sqr": func(m, l, r *big.Int) *big.Int { return bmod(m, new(big.Int).Mul(l, l)) },
		"set": func(m, l, r *big.Int) *big.Int { return l },
		"inv": func(m, l, r *big.Int) *big.Int {
			if l.Sign() == 0 {
				return nil
			}
			return new(big.Int).ModInverse(l, m)
		},
		"sqrt": func(m, l, r *big.Int) *big.Int {
			if x, ok := ref.FSqrt(l); ok {
				return x
			}
			return new(big.Int)
		},
		"prog": func(m, l, r *big.Int) *big.Int {
			e := new(big.Int).Sub(m, big.NewInt(3))
			return new(big.Int).Exp(l, e.Rsh(e, 2), m)
		},
	}
}

func scalarRing(e Env) *ring {
	w := opWants()
	s := func(x any) curve.EccScalar { return x.(curve.EccScalar) }
	return &ring{
		name: "scalar", m: ref.N, alpha: scalarAlphabet(e),
		make: func(v *big.Int) any { return fx.S(v) },
		val:  func(x any) *big.Int { return fx.BI(s(x)) },
		ops: []ringOp{
			{"add", 2, func(d, l, r any) any { return s(d).Add(s(l), s(r)) }, w["add"]},
			{"sub", 2, func(d, l, r any) any { return s(d).Sub(s(l), s(r)) }, w["sub"]},
			{"mul", 2, func(d, l, r any) any { return s(d).Mul(s(l), s(r)) }, w["mul"]},
			{"negate", 1, func(d, l, r any) any { return s(d).Negate(s(l)) }, w["neg"]},
			{"invert", 1, func(d, l, r any) any { return s(d).Invert(s(l)) }, w["inv"]},
			{"assign", 1, func(d, l, r any) any { return s(d).Assign(s(l)) }, w["set"]},
		},
		observe: func(c *explore.Ctx, what string, x any, v *big.Int) { observeScalar(c, what, s(x), v) },
	}
}

func observeScalar(c *explore.Ctx, what string, x curve.EccScalar, v *big.Int) {
	c.Check(x != nil, "nil result", "%s is nil", what)
	want := ref.Bytes32(v)
	c.Check(bytes.Equal(x.Serialize(), want), "value", "%s is %x, want %x", what, x.Serialize(), want)
	c.Check(bytes.Equal(x.SerializeTagged(), append([]byte{1}, want...)), "tagged encoding", "%s: tagged encoding %x", what, x.SerializeTagged())
	c.Check(x.BigInt().Cmp(v) == 0, "BigInt", "%s: BigInt %x, want %x", what, x.BigInt(), v)
	c.Check((x.IsZero() == 1) == (v.Sign() == 0) && (x.IsZero() == 0 || x.IsZero() == 1), "IsZero", "%s = %x: IsZero = %d", what, v, x.IsZero())
	c.Check(x.IsHigh() == (v.Cmp(ref.HalfN) > 0), "IsHigh", "%s = %x: IsHigh = %v", what, v, x.IsHigh())
	c.Check(x.CurveType() == fx.K, "curve", "%s: curve type %v", what, x.CurveType())
	c.Check(x.Equal(fx.S(v)) == 1 && fx.S(v).Equal(x) == 1, "Equal", "%s = %x does not equal itself", what, v)
	o := fx.S(ref.Add(v, ref.I(1)))
	c.Check(x.Equal(o) != 1, "Equal", "%s = %x equals its successor", what, v)
	c.Eval(8)
}

func fieldRing(e Env) *ring {
	w := opWants()
	s := func(x any) curve.EccFieldElement { return x.(curve.EccFieldElement) }
	return &ring{
		name: "field", m: ref.FP, alpha: fieldAlphabet(e),
		make: func(v *big.Int) any { return fieldOf(v) },
		val:  func(x any) *big.Int { return new(big.Int).SetBytes(s(x).AsBytes()) },
		ops: []ringOp{
			{"add", 2, func(d, l, r any) any { return s(d).Add(s(l), s(r)) }, w["add"]},
			{"sub", 2, func(d, l, r any) any { return s(d).Sub(s(l), s(r)) }, w["sub"]},
			{"mul", 2, func(d, l, r any) any { return s(d).Mul(s(l), s(r)) }, w["mul"]},
			{"negate", 1, func(d, l, r any) any { return s(d).Negate(s(l)) }, w["neg"]},
			{"invert", 1, func(d, l, r any) any { return s(d).Invert(s(l)) }, w["inv"]},
			{"assign", 1, func(d, l, r any) any { return s(d).Assign(s(l)) }, w["set"]},
			{"square", 1, func(d, l, r any) any { return s(d).Square(s(l)) }, w["sqr"]},
			{"cassign1", 1, func(d, l, r any) any { s(d).CAssign(s(l), 1); return d }, w["set"]},
			{"progenitor", 1, func(d, l, r any) any { return s(d).Progenitor(s(l)) }, w["prog"]},
		},
		observe: func(c *explore.Ctx, what string, x any, v *big.Int) { observeField(c, what, s(x), v) },
	}
}

func fieldOf(v *big.Int) curve.EccFieldElement {
	f, err := curve.Field.FromBytes(fx.K, ref.Bytes32(v))
	if err != nil {
		panic("valid field encoding rejected: " + err.Error())
	}
	return f
}

func observeField(c *explore.Ctx, what string, x curve.EccFieldElement, v *big.Int) {
	c.Check(x != nil, "nil result", "%s is nil", what)
	want := ref.Bytes32(v)
	c.Check(bytes.Equal(x.AsBytes(), want), "value", "%s is %x, want %x", what, x.AsBytes(), want)
	c.Check(x.BigInt().Cmp(v) == 0, "BigInt", "%s: BigInt %x, want %x", what, x.BigInt(), v)
	c.Check((x.IsZero() == 1) == (v.Sign() == 0) && (x.IsZero() == 0 || x.IsZero() == 1), "IsZero", "%s = %x: IsZero = %d", what, v, x.IsZero())
	c.Check(uint(x.Sign()) == v.Bit(0), "Sign", "%s = %x: Sign = %d", what, v, x.Sign())
	c.Check(x.CurveType() == fx.K, "curve", "%s: curve type %v", what, x.CurveType())
	o := fieldOf(bmod(ref.FP, new(big.Int).Add(v, big.NewInt(1))))
	c.Check(x.Equal(fieldOf(v)) == 1 && fieldOf(v).Equal(x) == 1 && x.Equal(o) != 1, "Equal", "%s = %x: equality wrong", what, v)
	c.Eval(6)
}

func fieldAlphabet(e Env) []*big.Int {
	p2 := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	f := func(v *big.Int, d int64) *big.Int { return bmod(ref.FP, new(big.Int).Add(v, big.NewInt(d))) }
	half := new(big.Int).Rsh(ref.FP, 1)
	l := []*big.Int{ref.I(0), ref.I(1), ref.I(2), ref.I(3), ref.I(7), f(ref.FP, -1), f(ref.FP, -2), half, f(half, 1), p2(64), f(p2(128), -1), p2(255),
		f(p2(256), 0), ref.N, ref.G.X, ref.G.Y, randScalar(e, "field", 0), randScalar(e, "field", 1)}
	if e.Thorough {
		l = append(l, f(p2(64), -1), p2(32), f(p2(32), -1), p2(127), p2(128), p2(191), p2(192), f(p2(192), -1), f(p2(256), 1), f(p2(256), -1), ref.H.X, ref.H.Y,
			f(new(big.Int).Mul(p2(256), p2(256)), 0), f(new(big.Int).Neg(ref.I(11)), 0), new(big.Int).ModInverse(p2(256), ref.FP), new(big.Int).ModInverse(ref.I(2), ref.FP))
	}
	return l
}

// opsSpace: every operation on every operand tuple with every aliasing pattern.
func opsSpace(r *ring) *explore.Space {
	return &explore.Space{
		Name:  r.name + "-operations",
		Bound: fmt.Sprintf("%d operations x all operand tuples over %d boundary values x all aliasing patterns of destination and operands", len(r.ops), len(r.alpha)),
		Run: func(c *explore.Ctx) {
			op := r.ops[c.Choose("operation", len(r.ops))]
			a := r.alpha[c.Choose("left", len(r.alpha))]
			b := a
			pattern := 0
			names := []string{"distinct", "destination is left", "destination is right", "operands shared", "all shared"}
			if op.arity == 2 {
				b = r.alpha[c.Choose("right", len(r.alpha))]
				n := 3
				if a.Cmp(b) == 0 {
					n = 5
				}
				pattern = c.Choose("aliasing", n)
			} else {
				pattern = c.Choose("aliasing", 2)
			}
			c.Key(r.name, op.name, a, b, pattern)
			l, rr := r.make(a), r.make(b)
			d := r.make(bmod(r.m, big.NewInt(0x5a5a5a5a5a)))
			switch pattern {
			case 1:
				d = l
			case 2:
				d = rr
			case 3:
				rr = l
			case 4:
				d, rr = l, l
			}
			want := op.want(r.m, a, b)
			res := op.f(d, l, rr)
			if want == nil {
				return
			}
			what := fmt.Sprintf("%s(%x, %x) [%s]", op.name, a, b, names[pattern])
			r.observe(c, "result of "+what, res, want)
			r.observe(c, "destination of "+what, d, want)
			if l != d {
				c.Check(r.val(l).Cmp(a) == 0, "input changed", "left operand of %s became %x", what, r.val(l))
			}
			if op.arity == 2 && rr != d {
				c.Check(r.val(rr).Cmp(b) == 0, "input changed", "right operand of %s became %x", what, r.val(rr))
			}
		},
	}
}

// progSpace: all programs up to a length over shared registers.
func progSpace(r *ring, regs, depth int, init [][]int64) *explore.Space {
	ops := append([]ringOp{}, r.ops...)
	return &explore.Space{
		Name:  fmt.Sprintf("%s-programs-%dx%d", r.name, regs, depth),
		Bound: fmt.Sprintf("all programs of at most %d operations over %d shared registers, %d initial assignments, every register observed after each step", depth, regs, len(init)),
		Run: func(c *explore.Ctx) {
			in := init[c.Choose("init", len(init))]
			lib := make([]any, regs)
			mod := make([]*big.Int, regs)
			for i := range lib {
				mod[i] = bmod(r.m, big.NewInt(in[i]))
				lib[i] = r.make(mod[i])
			}
			trace := ""
			for step := 0; step < depth; step++ {
				op := ops[c.Choose("op", len(ops))]
				d := c.Choose("dst", regs)
				l := c.Choose("left", regs)
				q := l
				if op.arity == 2 {
					q = c.Choose("right", regs)
				}
				want := op.want(r.m, mod[l], mod[q])
				if want == nil {
					c.Skip()
				}
				trace += fmt.Sprintf(" r%d=%s(r%d,r%d)", d, op.name, l, q)
				res := op.f(lib[d], lib[l], lib[q])
				mod[d] = want
				c.Step(1)
				c.State(r.name, fmt.Sprint(mod))
				c.Check(r.val(res).Cmp(want) == 0, "returned value", "after%s: returned %x, want %x", trace, r.val(res), want)
				for i := range lib {
					c.Check(r.val(lib[i]).Cmp(mod[i]) == 0, "register value", "after%s from %v: register %d is %x, want %x", trace, in[:regs], i, r.val(lib[i]), mod[i])
				}
				c.Eval(regs + 1)
			}
			c.Key(r.name, trace, fmt.Sprint(in))
		},
	}
}

// decodeValues are integers at and around the limits of the encodings.
func decodeValues(m *big.Int, e Env) []*big.Int {
	p256 := new(big.Int).Lsh(big.NewInt(1), 256)
	l := []*big.Int{}
	for d := int64(-3); d <= 3; d++ {
		l = append(l, new(big.Int).Add(m, big.NewInt(d)), new(big.Int).Add(ref.HalfN, big.NewInt(d)))
	}
	for d := int64(0); d < 4; d++ {
		l = append(l, big.NewInt(d), new(big.Int).Sub(p256, big.NewInt(d+1)))
	}
	for i := uint(0); i < 256; i += 8 {
		l = append(l, new(big.Int).Lsh(big.NewInt(1), i), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(1)))
	}
	// one bit away from the modulus
	for i := 0; i < 256; i++ {
		l = append(l, new(big.Int).SetBit(m, i, m.Bit(i)^1))
	}
	l = append(l, ref.N, ref.FP, new(big.Int).Rsh(ref.N, 1), new(big.Int).Rsh(ref.FP, 1))
	return l
}

func patterns(n int) [][]byte {
	fill := func(f func(i int) byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = f(i)
		}
		return b
	}
	out := [][]byte{fill(func(int) byte { return 0 }), fill(func(int) byte { return 0xff }), fill(func(i int) byte { return byte(i + 1) })}
	if n > 0 {
		out = append(out, fill(func(i int) byte {
			if i == 0 {
				return 0x80
			}
			return 0
		}), fill(func(i int) byte {
			if i == n-1 {
				return 1
			}
			return 0
		}))
	}
	if n > 32 {
		// the modulus, and the modulus shifted, in the last bytes
		p := fill(func(int) byte { return 0 })
		copy(p[n-32:], ref.Bytes32(ref.N))
		q := append([]byte{}, p...)
		q[0] = 1
		out = append(out, p, q)
	}
	return out
}

func init() {
	register(&Check{
		ID:    "C13",
		Level: "model_checking",
		Rule: "one evaluation is one comparison of an observation of a library scalar or field element with big-integer arithmetic; an execution is one operand tuple, " +
			"aliasing pattern, register program, byte string or random-source answer; distinct means distinct canonical inputs",
		Assume: []string{"math/big computes correctly", "operands outside the listed boundary and pseudo-random alphabets behave like those inside"},
		Spaces: func(e Env) []*explore.Space {
			sr, fr := scalarRing(e), fieldRing(e)
			inits := [][]int64{{3, -1, 2, 0}, {0, 5, -2, 1}, {-2, 1, 7, -1}}
			sp := []*explore.Space{
				opsSpace(sr), opsSpace(fr),
				progSpace(sr, 2, Pick(e, 3, 4), inits[:Pick(e, 2, 3)]), progSpace(fr, 2, Pick(e, 3, 3), inits[:Pick(e, 2, 3)]),
				progSpace(sr, 3, 2, inits), progSpace(fr, 3, 2, inits),
			}
			sp = append(sp, &explore.Space{
				Name: "scalar-clone", Bound: "clone then change the original or the clone, all operations",
				Run: func(c *explore.Ctx) {
					r := []*ring{sr, fr}[c.Choose("ring", 2)]
					v := r.alpha[c.Choose("value", len(r.alpha))]
					op := r.ops[c.Choose("operation", len(r.ops))]
					side := c.Choose("changed", 2)
					x := r.make(v)
					var y any
					switch t := x.(type) {
					case curve.EccScalar:
						y = t.Clone()
					case curve.EccFieldElement:
						y = t.Clone()
					}
					r.observe(c, "clone", y, v)
					a, b := x, y
					if side == 1 {
						a, b = y, x
					}
					other := r.make(big.NewInt(77))
					op.f(a, other, r.make(big.NewInt(5)))
					r.observe(c, fmt.Sprintf("other side after %s", op.name), b, v)
					c.Check(r.val(other).Cmp(big.NewInt(77)) == 0, "input changed", "operand of %s changed", op.name)
				},
			}, &explore.Space{
				Name: "field-sqrt-cassign", Bound: "square root with flag and conditional assignment for every boundary value and its square, all aliasing patterns",
				Run: func(c *explore.Ctx) {
					v := fr.alpha[c.Choose("value", len(fr.alpha))]
					if c.Bool("squared") {
						v = bmod(ref.FP, new(big.Int).Mul(v, v))
					}
					x := fieldOf(v)
					switch c.Choose("op", 4) {
					case 0, 1:
						d := fieldOf(big.NewInt(12345))
						if c.Bool("aliased") {
							d = x
						}
						want, ok := ref.FSqrt(v)
						res, flag := d.Sqrt(x)
						c.Check((flag == 1) == ok, "sqrt flag", "square root flag of %x is %d", v, flag)
						if ok {
							got := new(big.Int).SetBytes(res.AsBytes())
							neg := bmod(ref.FP, new(big.Int).Neg(want))
							c.Check(got.Cmp(want) == 0 || got.Cmp(neg) == 0, "sqrt value", "square root of %x is %x", v, got)
							if d != x {
								observeField(c, "operand of square root", x, v)
							}
						}
					case 2:
						d := fieldOf(big.NewInt(12345))
						d.CAssign(x, 0)
						observeField(c, "unassigned destination", d, big.NewInt(12345))
						d.CAssign(x, 1)
						observeField(c, "assigned destination", d, v)
						observeField(c, "source", x, v)
					case 3:
						observeField(c, "zero", curve.Field.Zero(fx.K), ref.I(0))
						observeField(c, "one", curve.Field.One(fx.K), ref.I(1))
						observeField(c, "A", curve.Field.A(fx.K), ref.I(0))
						observeField(c, "B", curve.Field.B(fx.K), ref.I(7))
						z := bmod(ref.FP, big.NewInt(-11))
						observeField(c, "SSWU Z", curve.Field.SswuZ(fx.K), z)
						// C2 = sqrt(-Z)
						c2 := curve.Field.SswuC2(fx.K)
						c2.Square(c2)
						observeField(c, "SSWU C2 squared", c2, big.NewInt(11))
						observeField(c, "SSWU B", curve.Field.SswuB(fx.K), big.NewInt(1771))
						a, _ := new(big.Int).SetString("3F8731ABDD661ADCA08A5558F0F5D272E953D363CB6F0E5D405447C01A444533", 16)
						observeField(c, "SSWU A", curve.Field.SswuA(fx.K), a)
						observeField(c, "hex", curve.K256Field.FromHex(fmt.Sprintf("%064x", v)), v)
					}
				},
			}, &explore.Space{
				Name: "strict-decoding", Bound: "every length 0..70 with filler patterns and every boundary integer as 32 bytes, for scalars, tagged scalars, CBOR scalars, scalar bytes and field elements",
				Run: func(c *explore.Ctx) { strictDecoding(c, e) },
			}, &explore.Space{
				Name: "wide-decoding", Bound: "every length 0..96 with filler patterns and boundary products, scalars and field elements",
				Run: wideDecoding,
			}, &explore.Space{
				Name: "small-constructors", Bound: "FromUint64 and FromNodeIndex over boundary integers, zero and one, scalar bytes, equality of all pairs",
				Run: func(c *explore.Ctx) { smallConstructors(c, e) },
			}, &explore.Space{
				Name: "random-by-rejection", Bound: "every sequence of random-source answers over {0, 1, N-1, N, N+1, 2^256-1} until one is valid, up to 4 rejections",
				Run: randomByRejection,
			})
			return sp
		},
	})
}

func strictDecoding(c *explore.Ctx, e Env) {
	var b []byte
	isField := c.Bool("field")
	m := ref.N
	if isField {
		m = ref.FP
	}
	if c.Choose("shape", 2) == 0 {
		vals := decodeValues(m, e)
		b = ref.Bytes32(vals[c.Choose("value", len(vals))])
	} else {
		n := c.Choose("length", 71)
		ps := patterns(n)
		b = ps[c.Choose("pattern", len(ps))]
	}
	c.Key("strict", isField, b)
	v := new(big.Int).SetBytes(b)
	ok := len(b) == 32 && v.Cmp(m) < 0
	in, intact := fx.Canary(b)
	if isField {
		f, err := curve.Field.FromBytes(fx.K, in)
		c.Check((err == nil) == ok, "acceptance", "field element from %x: %s", b, errStr(err))
		if ok {
			observeField(c, "decoded field element", f, v)
		}
		f2, err := curve.K256Field.FromBytes(in)
		c.Check((err == nil) == ok, "acceptance", "field element (concrete) from %x: %s", b, errStr(err))
		if ok {
			observeField(c, "decoded field element", f2, v)
		}
		c.Check(intact(), "input changed", "decoding a field element changed its input %x", b)
		return
	}
	s, err := curve.Scalar.Deserialize(fx.K, in)
	c.Check((err == nil) == ok, "acceptance", "scalar from %x: %s", b, errStr(err))
	if ok {
		observeScalar(c, "decoded scalar", s, v)
	}
	s2, err := curve.K256Scalar.Deserialize(in)
	c.Check((err == nil) == ok, "acceptance", "scalar (concrete) from %x: %s", b, errStr(err))
	if ok {
		observeScalar(c, "decoded scalar", s2, v)
	}
	for _, tag := range []byte{1, 0, 2, 0xff} {
		tb := append([]byte{tag}, b...)
		tin, tintact := fx.Canary(tb)
		st, err := curve.Scalar.DeserializeTagged(tin)
		c.Check((err == nil) == (ok && tag == 1), "tagged acceptance", "tagged scalar from %x: %s", tb, errStr(err))
		if err == nil {
			observeScalar(c, "decoded tagged scalar", st, v)
		}
		enc := must(cbor.Marshal(tb))
		u := curve.K256Scalar.FromUint64(99)
		err = cbor.Unmarshal(enc, u)
		c.Check((err == nil) == (ok && tag == 1), "CBOR acceptance", "CBOR scalar from %x: %s", enc, errStr(err))
		if err == nil {
			observeScalar(c, "decoded CBOR scalar", u, v)
			c.Check(bytes.Equal(must(cbor.Marshal(u)), enc), "CBOR round trip", "CBOR of %x", v)
		} else {
			observeScalar(c, "scalar after failed CBOR decoding", u, ref.I(99))
		}
		c.Check(tintact(), "input changed", "decoding a tagged scalar changed its input %x", tb)
	}
	if len(b) == 0 {
		_, err := curve.Scalar.DeserializeTagged(nil)
		c.Check(err != nil, "tagged acceptance", "empty tagged scalar accepted")
	}
	c.Check(intact(), "input changed", "decoding a scalar changed its input %x", b)
}

func wideDecoding(c *explore.Ctx) {
	var b []byte
	if c.Choose("shape", 2) == 0 {
		n := c.Choose("length", 97)
		ps := patterns(n)
		b = ps[c.Choose("pattern", len(ps))]
	} else {
		// around multiples of the moduli
		mods := []*big.Int{ref.N, ref.FP, new(big.Int).Mul(ref.N, ref.N), new(big.Int).Mul(ref.FP, ref.FP), new(big.Int).Lsh(ref.N, 256), new(big.Int).Lsh(ref.FP, 255),
			new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(1), 384), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 512), big.NewInt(4))}
		v := new(big.Int).Add(mods[c.Choose("around", len(mods))], big.NewInt(int64(c.Choose("offset", 7)-3)))
		b = make([]byte, []int{64, 48, 33}[c.Choose("width", 3)])
		if len(v.Bytes()) > len(b) {
			c.Skip()
		}
		v.FillBytes(b)
	}
	c.Key("wide", b)
	v := new(big.Int).SetBytes(b)
	ok := len(b) <= 64
	in, intact := fx.Canary(b)
	s, err := curve.Scalar.FromBytesWide(fx.K, in)
	c.Check((err == nil) == ok, "acceptance", "wide scalar from %d bytes: %s", len(b), errStr(err))
	if ok {
		observeScalar(c, fmt.Sprintf("wide scalar from %x", b), s, bmod(ref.N, v))
	}
	f, err := curve.Field.FromBytesWide(fx.K, in)
	c.Check((err == nil) == ok, "acceptance", "wide field element from %d bytes: %s", len(b), errStr(err))
	if ok {
		observeField(c, fmt.Sprintf("wide field element from %x", b), f, bmod(ref.FP, v))
	}
	c.Check(intact(), "input changed", "wide decoding changed its input %x", b)
}

func smallConstructors(c *explore.Ctx, e Env) {
	switch c.Choose("kind", 4) {
	case 0:
		vals := []uint64{0, 1, 2, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		n := vals[c.Choose("value", len(vals))]
		observeScalar(c, fmt.Sprintf("FromUint64(%d)", n), curve.Scalar.FromUint64(fx.K, n), new(big.Int).SetUint64(n))
	case 1:
		vals := []int{0, 1, 2, 9, 254, 255, 256, 65534, 65535, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1<<63 - 2}
		n := vals[c.Choose("value", len(vals))]
		observeScalar(c, fmt.Sprintf("FromNodeIndex(%d)", n), curve.Scalar.FromNodeIndex(fx.K, common.NodeIndex(n)), new(big.Int).Add(big.NewInt(int64(n)), big.NewInt(1)))
	case 2:
		observeScalar(c, "zero", curve.Scalar.Zero(fx.K), ref.I(0))
		observeScalar(c, "one", curve.Scalar.One(fx.K), ref.I(1))
		al := scalarAlphabet(e)
		v := al[c.Choose("value", len(al))]
		sb := curve.Scalar.ToScalarBytes(fx.S(v))
		c.Check(bytes.Equal(sb.ScalarBytes(), ref.Bytes32(v)) && sb.CurveType() == fx.K, "scalar bytes", "bytes of %x are %x", v, sb.ScalarBytes())
		observeScalar(c, "scalar from bytes", sb.ToScalar(), v)
	case 3:
		al := scalarAlphabet(e)
		a, b := al[c.Choose("a", len(al))], al[c.Choose("b", len(al))]
		c.Check((fx.S(a).Equal(fx.S(b)) == 1) == (a.Cmp(b) == 0), "Equal", "equality of %x and %x", a, b)
		x, y := bmod(ref.FP, a), bmod(ref.FP, b)
		c.Check((fieldOf(x).Equal(fieldOf(y)) == 1) == (x.Cmp(y) == 0), "Equal", "equality of field elements %x and %x", x, y)
	}
}

// scriptedRand answers draws from a script of whole scalars.
type scriptedRand struct {
	next func() []byte
	left []byte
}

func (r *scriptedRand) take(n int) []byte {
	for len(r.left) < n {
		r.left = append(r.left, r.next()...)
	}
	out := r.left[:n:n]
	r.left = r.left[n:]
	return out
}
func (r *scriptedRand) FillUint8(b []uint8) { copy(b, r.take(len(b))) }
func (r *scriptedRand) XORKeyStream(dst, src []byte) {
	k := r.take(len(src))
	for i := range src {
		dst[i] = src[i] ^ k[i]
	}
}
func (r *scriptedRand) Uint32() uint32 { return uint32(new(big.Int).SetBytes(r.take(4)).Uint64()) }
func (r *scriptedRand) Uint64() uint64 { return new(big.Int).SetBytes(r.take(8)).Uint64() }

func randomByRejection(c *explore.Ctx) {
	p256 := new(big.Int).Lsh(big.NewInt(1), 256)
	answers := []*big.Int{ref.I(0), ref.I(1), new(big.Int).Sub(ref.N, ref.I(1)), ref.N, new(big.Int).Add(ref.N, ref.I(1)), new(big.Int).Sub(p256, ref.I(1))}
	var script []string
	var want *big.Int
	draws, valid := 0, 0
	r := &scriptedRand{}
	r.next = func() []byte {
		draws++
		n := len(answers)
		if valid == 0 && draws > 4 {
			n = 3 // end the rejections
		}
		v := answers[c.Choose("answer", n)]
		script = append(script, fmt.Sprintf("%x", v))
		if v.Cmp(ref.N) < 0 {
			valid++
			if want == nil {
				want = v
			}
		}
		return ref.Bytes32(v)
	}
	// two draws in a row from the same source
	for i := 0; i < 2; i++ {
		want = nil
		s := curve.Scalar.Random(fx.K, r)
		c.Check(want != nil, "accepted an invalid draw", "answers %v gave %x", script, s.Serialize())
		observeScalar(c, fmt.Sprintf("random scalar from %v", script), s, want)
		c.Check(len(r.left) == 0, "draw size", "draws are not whole scalars")
		valid, draws = 0, 0
		if len(script) > 3 {
			break
		}
	}
	c.Key("random", fmt.Sprint(script))
}
