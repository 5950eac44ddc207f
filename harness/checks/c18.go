package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/PlatONnetwork/tecdsa/ro"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C18",
		Level: "model_checking",
		Rule: "states are the named, typed inputs held; transitions are the additions (valid and invalid) and outputs; every sequence up to the depth bound runs on the real object and " +
			"each answer is compared with the model; distinct means distinct sequences or input sets",
		Assume: []string{"SHA-256 has no collisions among the enumerated inputs", "the expansion itself is decided by C17"},
		Spaces: c18Spaces,
	})
}

type roOp struct {
	name string
	// lib performs the operation, model predicts it: the error and the new inputs.
	lib    func(r *ro.RandomOracle) error
	model  func(m *ref.RO)
	names  []string
	bad    bool
	output bool
}

func validName(n string) bool { return len(n) > 0 && len(n) <= 255 }

func bytesOp(name string, data []byte) roOp {
	return roOp{name: fmt.Sprintf("bytes(%s, %s)", shortName(name), short(data)), lib: func(r *ro.RandomOracle) error {
		d := append([]byte{}, data...)
		err := r.AddBytesString(name, d)
		for i := range d {
			d[i] ^= 0xff
		}
		return err
	}, model: func(m *ref.RO) { m.Bytes(name, data) }, names: []string{name}, bad: !validName(name)}
}

func shortName(n string) string {
	if len(n) > 20 {
		return fmt.Sprintf("%q..(%d bytes)", n[:8], len(n))
	}
	return fmt.Sprintf("%q", n)
}

func rawOp(name string, ty byte, data []byte) roOp {
	return roOp{name: fmt.Sprintf("raw(%s, %d, %s)", shortName(name), ty, short(data)), lib: func(r *ro.RandomOracle) error {
		d, ok := fx.Canary(data)
		err := r.AddInput(name, d, ro.RandomOracleInputType(ty))
		if !ok() {
			return fmt.Errorf("harness-visible: the data passed in was changed")
		}
		for i := range d {
			d[i] ^= 0xff
		}
		return err
	}, model: func(m *ref.RO) { m.Add(name, ty, data) }, names: []string{name}, bad: !validName(name)}
}

func intOp(name string, v uint64, wide bool) roOp {
	return roOp{name: fmt.Sprintf("int(%s, %d, wide=%v)", shortName(name), v, wide), lib: func(r *ro.RandomOracle) error {
		if wide {
			return r.AddUint64(name, v)
		}
		return r.AddUint32(name, uint32(v))
	}, model: func(m *ref.RO) { m.Int(name, v) }, names: []string{name}, bad: !validName(name)}
}

func scalarOp(name string, v *big.Int) roOp {
	return roOp{name: fmt.Sprintf("scalar(%s, %x)", shortName(name), v), lib: func(r *ro.RandomOracle) error {
		s := fx.S(v)
		err := r.AddScalar(name, s)
		if !fx.SEq(s, v) {
			return fmt.Errorf("harness-visible: the scalar passed in was changed")
		}
		s.Add(s, s)
		return err
	}, model: func(m *ref.RO) { m.Scalar(name, v) }, names: []string{name}, bad: !validName(name)}
}

func pointOp(name string, p ref.P, rebased bool) roOp {
	return roOp{name: fmt.Sprintf("point(%s, %x)", shortName(name), p.Bytes()), lib: func(r *ro.RandomOracle) error {
		q := fx.Pt(p)
		if rebased {
			q = fx.Rebase(q)
		}
		err := r.AddPoint(name, q)
		if !fx.PEq(q, p) {
			return fmt.Errorf("harness-visible: the point passed in was changed")
		}
		q.AddPoints(q, fx.Pt(ref.G))
		return err
	}, model: func(m *ref.RO) { m.Point(name, p) }, names: []string{name}, bad: !validName(name)}
}

func pointsOp(name string, ps []ref.P) roOp {
	op := roOp{name: fmt.Sprintf("points(%s, %d)", shortName(name), len(ps)), lib: func(r *ro.RandomOracle) error { return r.AddPoints(name, fx.Pts(ps)) },
		model: func(m *ref.RO) {
			for i, p := range ps {
				m.Point(fmt.Sprintf("%s[%d]", name, i), p)
			}
		}}
	for i := range ps {
		n := fmt.Sprintf("%s[%d]", name, i)
		op.names = append(op.names, n)
		op.bad = op.bad || !validName(n)
	}
	return op
}

// roOutputs compares every output with the model.
func roOutputs(c *explore.Ctx, what string, r *ro.RandomOracle, m *ref.RO, empty bool, heavy bool) {
	b, err := r.OutputByteString(33)
	if empty {
		_, e2 := r.OutputScalar(fx.K)
		_, e3 := r.OutputPoint(fx.K)
		c.Check(err != nil && e2 != nil && e3 != nil, "output without inputs", "%s: output without inputs succeeds", what)
		return
	}
	c.Check(err == nil && bytes.Equal(b, m.OutBytes(33)), "byte output", "%s: bytes %x (%v), want %x", what, b, err, m.OutBytes(33))
	s, err := r.OutputScalars(fx.K, 2)
	w := m.Scalars(2)
	c.Check(err == nil && len(s) == 2 && fx.SEq(s[0], w[0]) && fx.SEq(s[1], w[1]), "scalar output", "%s: OutputScalars (%v)", what, err)
	o, err := r.OutputScalar(fx.K)
	c.Check(err == nil && fx.SEq(o, m.Scalar1()), "scalar output", "%s: OutputScalar (%v)", what, err)
	if heavy {
		p, err := r.OutputPoint(fx.K)
		c.Check(err == nil && fx.PEq(p, m.OutPoint()), "point output", "%s: OutputPoint (%v)", what, err)
	}
	c.Eval(3)
}

func c18Spaces(e Env) []*explore.Space {
	// an input whose data contains the encoding of another one
	mimic := func(data []byte, name string, ty byte, d2 []byte) []byte {
		return append(append([]byte{}, data...), ref.NewRO("").Add(name, ty, d2).Input()...)
	}
	n255, n256 := strings.Repeat("n", 255), strings.Repeat("n", 256)
	ops := []roOp{
		bytesOp("a", nil), bytesOp("a", []byte("x")), bytesOp("b", []byte("x")), bytesOp("ab", nil), bytesOp("a", mimic([]byte("x"), "b", 1, []byte("x"))),
		bytesOp("a[0]", []byte("q")), bytesOp(n255, []byte("x")), bytesOp(n256, []byte("x")), bytesOp("", []byte("x")),
		intOp("a", 0, true), intOp("b", 1<<32-1, false), intOp("c", 1<<40, true),
		scalarOp("a", ref.I(1)), scalarOp("c", ref.Neg(ref.I(1))), pointOp("b", ref.G, true), pointOp("c", ref.Identity(), false), pointOp("", ref.G, false),
		pointsOp("a", []ref.P{ref.G, ref.H}), pointsOp("a", nil), rawOp("c", 9, []byte{1}), rawOp("\x00", 1, []byte{0}), intOp(n256, 7, true), scalarOp("", ref.I(1)),
		{name: "output bytes", output: true, lib: func(r *ro.RandomOracle) error { _, err := r.OutputByteString(64); return err }},
		{name: "output scalars", output: true, lib: func(r *ro.RandomOracle) error {
			s, err := r.OutputScalars(fx.K, 2)
			if err == nil {
				s[0].Add(s[0], s[1])
			}
			return err
		}},
		{name: "output point", output: true, lib: func(r *ro.RandomOracle) error { _, err := r.OutputPoint(fx.K); return err }},
	}
	dsts := []string{"", "d", "ic-crypto-tecdsa", strings.Repeat("d", 244), strings.Repeat("d", 245), strings.Repeat("d", 246), strings.Repeat("d", 255), strings.Repeat("d", 256), strings.Repeat("e", 300)}
	depth := Pick(e, 4, 5)
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "operation-sequences", Bound: fmt.Sprintf("every sequence of up to %d of %d additions and outputs", depth, len(ops)),
		Run: func(c *explore.Ctx) {
			r := ro.NewRandomOracle("sequence")
			m := ref.NewRO("sequence")
			have := map[string]bool{}
			n := c.Choose("length", depth+1)
			partial := false
			var names []string
			for i := 0; i < n; i++ {
				op := ops[c.Choose("operation", len(ops))]
				names = append(names, op.name)
				err := op.lib(r)
				c.Step(1)
				if op.output {
					c.Check((err != nil) == (len(have) == 0), "output", "after %v: %s with %d inputs", names, errStr(err), len(have))
					continue
				}
				bad := op.bad
				for _, x := range op.names {
					bad = bad || have[x]
				}
				c.Check((err != nil) == bad, "acceptance", "after %v: %s, want error=%v", names, errStr(err), bad)
				if bad {
					partial = partial || len(op.names) > 1
					continue
				}
				op.model(m)
				for _, x := range op.names {
					have[x] = true
				}
			}
			if partial {
				c.Skip() // how much of a refused list was added is not part of the property
			}
			c.State(string(m.Input()))
			c.Key(fmt.Sprint(names))
			c.Outcome(string(m.Input()))
			roOutputs(c, fmt.Sprint(names), r, m, len(have) == 0, n < 3)
			if n < 3 {
				roOutputs(c, fmt.Sprint(names)+" (again)", r, m, len(have) == 0, true)
			}
		},
	}, &explore.Space{
		Name: "insertion-orders", Bound: "every insertion order of every 5-subset of 7 inputs of all types",
		Run: func(c *explore.Ctx) {
			l := []roOp{bytesOp("a", []byte("x")), bytesOp("ab", nil), intOp("B", 1, false), scalarOp("a\x00", ref.I(7)), pointOp("z", ref.H, false), bytesOp("é", []byte("y")), rawOp("\xff", 3, []byte("r"))}
			r := ro.NewRandomOracle("order")
			m := ref.NewRO("order")
			var names []string
			for i := 0; i < 5; i++ {
				k := c.Choose("input", len(l))
				op := l[k]
				l = append(append([]roOp{}, l[:k]...), l[k+1:]...)
				names = append(names, op.name)
				c.Check(op.lib(r) == nil, "acceptance", "%v rejected", names)
				op.model(m)
			}
			c.State(string(m.Input()))
			b, err := r.OutputByteString(32)
			c.Check(err == nil && bytes.Equal(b, m.OutBytes(32)), "byte output", "%v: %x, want %x", names, b, m.OutBytes(32))
		},
	})
	lens := []int{0, 1, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 65534, 65535, 65536, 65537, 131072 + 5}
	if e.Thorough {
		lens = append(lens, 1<<24-1, 1<<24, 1<<24+1)
	} else {
		lens = append(lens, 1<<24+1)
	}
	sp = append(sp, &explore.Space{
		Name: "lengths", Bound: fmt.Sprintf("data of %d lengths, alone and beside others, last byte changed; every name length 0..300; %d separators x outputs of 0..300 bytes and 1..8 scalars", len(lens), len(dsts)),
		Run: func(c *explore.Ctx) {
			switch c.Choose("family", 3) {
			case 0:
				n := lens[c.Choose("data length", len(lens))]
				d := filled(2, n)
				if n > 0 && c.Bool("last byte changed") {
					d[n-1] ^= 1
				}
				r, m := ro.NewRandomOracle("length"), ref.NewRO("length")
				c.Key(n, d)
				if c.Bool("beside others") {
					r.AddUint64("a", 5)
					m.Int("a", 5)
					r.AddBytesString("z", []byte{9})
					m.Bytes("z", []byte{9})
				}
				in, ok := fx.Canary(d)
				c.Check(r.AddBytesString("m", in) == nil, "acceptance", "%d bytes refused", n)
				c.Check(ok(), "input changed", "the data was changed")
				m.Bytes("m", d)
				roOutputs(c, fmt.Sprintf("%d byte input", n), r, m, false, true)
			case 1:
				n := c.Choose("name length", 301)
				name := strings.Repeat("k", n)
				for _, op := range []roOp{bytesOp(name, []byte("v")), intOp(name, 1, true), intOp(name, 2, false), scalarOp(name, ref.I(3)), pointOp(name, ref.G, false), rawOp(name, 7, nil), pointsOp(name, []ref.P{ref.G})} {
					r, m := ro.NewRandomOracle("name"), ref.NewRO("name")
					r.AddUint64("a", 5)
					m.Int("a", 5)
					err := op.lib(r)
					c.Check((err != nil) == op.bad, "acceptance", "%s: %s", op.name, errStr(err))
					if err == nil {
						op.model(m)
						c.Check(op.lib(r) != nil, "acceptance", "%s accepted twice", op.name)
					}
					roOutputs(c, op.name, r, m, false, false)
				}
			case 2:
				d := dsts[c.Choose("separator", len(dsts))]
				r, m := ro.NewRandomOracle(d), ref.NewRO(d)
				r.AddBytesString("m", []byte("v"))
				m.Bytes("m", []byte("v"))
				c.Key(d)
				roOutputs(c, fmt.Sprintf("%d byte separator", len(d)), r, m, false, true)
				for n := 0; n <= 300; n++ {
					b, err := r.OutputByteString(n)
					c.Check(err == nil && len(b) == n && bytes.Equal(b, m.OutBytes(n)), "byte output", "%d byte separator: %d bytes: %x (%v)", len(d), n, b, err)
				}
				for n := 1; n <= 8; n++ {
					s, err := r.OutputScalars(fx.K, n)
					w := m.Scalars(n)
					c.Check(err == nil && len(s) == n, "scalar output", "%d scalars (%v)", n, err)
					for i := range w {
						c.Check(fx.SEq(s[i], w[i]), "scalar output", "scalar %d of %d", i, n)
					}
				}
				_, err := r.OutputByteString(8161)
				_, err2 := r.OutputScalars(fx.K, 171)
				c.Check(err != nil && err2 != nil, "too long", "too long outputs are accepted")
				c.Eval(310)
			}
		},
	}, &explore.Space{
		Name: "many-points", Bound: "lists of 0..12 and 101 points, whole and with one point changed or two exchanged",
		Run: func(c *explore.Ctx) {
			n := c.Choose("points", 14)
			if n == 13 {
				n = 101
			}
			ps := make([]ref.P, n)
			for i := range ps {
				ps[i] = ref.MulG(ref.I(int64(i + 1)))
			}
			if n > 1 {
				switch c.Choose("change", 3) {
				case 1:
					ps[n-1] = ps[n-1].Neg()
				case 2:
					ps[0], ps[n-1] = ps[n-1], ps[0]
				}
			}
			r, m := ro.NewRandomOracle("points"), ref.NewRO("points")
			r.AddUint64("a", 5)
			m.Int("a", 5)
			op := pointsOp("p", ps)
			c.Check(op.lib(r) == nil, "acceptance", "%d points refused", n)
			op.model(m)
			roOutputs(c, op.name, r, m, false, true)
		},
	}, &explore.Space{
		Name: "injectivity", Bound: "all sets of up to three inputs over 4 colliding names x 10 typed values: pairwise different outputs; and all separators",
		Run: func(c *explore.Ctx) { roInjective(c) },
	})
	return sp
}

func roInjective(c *explore.Ctx) {
	names := []string{"a", "b", "ab", "a\x01"}
	vals := []struct {
		ty byte
		d  []byte
	}{{1, nil}, {1, []byte{0}}, {1, []byte("b")}, {1, ref.NewRO("").Add("b", 1, nil).Input()}, {2, nil}, {2, make([]byte, 8)}, {2, []byte{0, 0, 0, 0, 0, 0, 0, 1}}, {3, ref.G.Tagged()}, {1, ref.G.Tagged()}, {4, append([]byte{1}, make([]byte, 32)...)}}
	seen := map[string]string{}
	add := func(sep string, set [][3]int) {
		r := ro.NewRandomOracle(sep)
		desc := fmt.Sprint(sep, set)
		for _, s := range set {
			c.Check(r.AddInput(names[s[0]], vals[s[1]].d, ro.RandomOracleInputType(vals[s[1]].ty)) == nil, "acceptance", "%v refused", set)
		}
		b, err := r.OutputByteString(32)
		c.Check(err == nil, "output", "%v: %v", set, err)
		if o, ok := seen[string(b)]; ok {
			c.Fail("collision", "inputs %s and %s give the same output", o, desc)
		}
		seen[string(b)] = desc
		c.Eval(1)
		c.State(desc)
	}
	full := c.Choose("first value of the largest sets", len(vals))
	for n1 := range names {
		for v1 := range vals {
			add("i", [][3]int{{n1, v1}})
			for n2 := n1 + 1; n2 < len(names); n2++ {
				for v2 := range vals {
					add("i", [][3]int{{n1, v1}, {n2, v2}})
					if v1 != full {
						continue
					}
					for n3 := n2 + 1; n3 < len(names); n3++ {
						for v3 := range vals {
							add("i", [][3]int{{n1, v1}, {n2, v2}, {n3, v3}})
						}
					}
				}
			}
		}
	}
	for i := 0; i < 260; i++ {
		add(strings.Repeat("s", i+300), [][3]int{{0, 0}})
		add(strings.Repeat("s", i), [][3]int{{0, 0}})
	}
}
