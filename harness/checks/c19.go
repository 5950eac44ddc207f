package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/seed"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C19",
		Level: "model_checking",
		Rule: "states are the positions of the streams (and the seed values of the pool); transitions are requests; every request sequence up to the depth bound runs on the real objects and " +
			"each answer is compared with an independent ChaCha20 and seed derivation; distinct means distinct sequences",
		Assume: []string{"SHA-256 has no collisions among the enumerated labels"},
		Spaces: c19Spaces,
	})
}

// drawOp takes bytes from a stream in one of the ways callers can.
type drawOp struct {
	name string
	run  func(r rand.Rand, want func(n int) []byte) string
}

func diff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	return fmt.Sprintf("%s, want %s", short(got), short(want))
}

func fillOp(n int, dirty byte) drawOp {
	return drawOp{fmt.Sprintf("fill(%d, %#x)", n, dirty), func(r rand.Rand, want func(int) []byte) string {
		back := bytes.Repeat([]byte{dirty}, n+40)
		r.FillUint8(back[20 : 20+n : 20+n+10])
		if s := diff(back[20:20+n], want(n)); s != "" {
			return s
		}
		for i, b := range back {
			if (i < 20 || i >= 20+n) && b != dirty {
				return "memory next to the buffer was written"
			}
		}
		return ""
	}}
}

func xorOp(n int, inPlace bool) drawOp {
	return drawOp{fmt.Sprintf("xor(%d, in place=%v)", n, inPlace), func(r rand.Rand, want func(int) []byte) string {
		src := filled(2, n)
		dst := make([]byte, n)
		if inPlace {
			dst = src
		}
		plain := filled(2, n)
		r.XORKeyStream(dst, src)
		w := want(n)
		for i := range w {
			w[i] ^= plain[i]
		}
		if !inPlace && !bytes.Equal(src, plain) {
			return "the source was changed"
		}
		return diff(dst, w)
	}}
}

func u32Op() drawOp {
	return drawOp{"uint32", func(r rand.Rand, want func(int) []byte) string {
		return diff(binary.BigEndian.AppendUint32(nil, r.Uint32()), want(4))
	}}
}

func u64Op() drawOp {
	return drawOp{"uint64", func(r rand.Rand, want func(int) []byte) string {
		return diff(binary.BigEndian.AppendUint64(nil, r.Uint64()), want(8))
	}}
}

func scalarDrawOp() drawOp {
	return drawOp{"scalar", func(r rand.Rand, want func(int) []byte) string {
		s := curve.Scalar.Random(fx.K, r)
		for {
			b := want(32)
			if bytes.Compare(b, ref.Bytes32(ref.N)) < 0 {
				return diff(s.Serialize(), b)
			}
		}
	}}
}

func fromRngOp(stream bool) drawOp {
	return drawOp{fmt.Sprintf("seed from stream=%v", stream), func(r rand.Rand, want func(int) []byte) string {
		var s *seed.Seed
		dst := "ic-crypto-seed-from-rng"
		if stream {
			s = seed.FromRandomness(r)
			dst = "ic-crypto-seed-from-randomness"
		} else {
			s = seed.FromRng(r)
		}
		return seedDiff(s, ref.NewSeed(want(32), dst))
	}}
}

// seedDiff observes a seed through its stream and a derived seed.
func seedDiff(s *seed.Seed, want ref.Seed) string {
	b := make([]byte, 40)
	s.Rng().FillUint8(b)
	if d := diff(b, want.Rng().Next(40)); d != "" {
		return "the seed's stream is " + d
	}
	s.Derive("observe").Rng().FillUint8(b)
	if d := diff(b, want.Derive("observe").Rng().Next(40)); d != "" {
		return "the derived seed's stream is " + d
	}
	return ""
}

func c19Spaces(e Env) []*explore.Space {
	ops := []drawOp{u32Op(), u64Op(), fillOp(0, 0xff), fillOp(1, 0), fillOp(3, 0xff), fillOp(32, 0xa5), fillOp(63, 0), fillOp(64, 0xff), fillOp(65, 0x5a), fillOp(130, 1),
		xorOp(5, false), xorOp(64, true), xorOp(100, false), scalarDrawOp(), fromRngOp(false), fromRngOp(true)}
	depth := Pick(e, 5, 6)
	sp := []*explore.Space{{
		Name: "one-stream", Bound: fmt.Sprintf("every sequence of up to %d requests out of %d on one stream", depth, len(ops)),
		Run: func(c *explore.Ctx) {
			label := "stream"
			ls, rs := fx.LSeed(label)
			r, w := ls.Rng(), rs.Rng()
			n := c.Choose("length", depth+1)
			var names []string
			pos := 0
			for i := 0; i < n; i++ {
				op := ops[c.Choose("request", len(ops))]
				names = append(names, op.name)
				d := op.run(r, func(n int) []byte { pos += n; return w.Next(n) })
				c.Check(d == "", "stream", "%v: last answer %s", names, d)
				c.Step(1)
				c.State(pos)
			}
			b := make([]byte, 70)
			r.FillUint8(b)
			c.Check(diff(b, w.Next(70)) == "", "stream", "after %v the stream is at another position", names)
			c.Key(fmt.Sprint(names))
			c.Eval(n + 1)
		},
	}}
	few := []drawOp{u32Op(), u64Op(), fillOp(33, 0xff), fillOp(64, 0), xorOp(7, true), scalarDrawOp(), fromRngOp(false)}
	d2 := Pick(e, 4, 5)
	sp = append(sp, &explore.Space{
		Name: "interleaved-streams", Bound: fmt.Sprintf("every sequence of up to %d requests out of %d, each on one of three streams (two of the same seed, one other) and one made later", d2, len(few)),
		Run: func(c *explore.Ctx) {
			ls, rs := fx.LSeed("x")
			lo, ro := fx.LSeed("y")
			lib := []rand.Rand{ls.Rng(), ls.Rng(), lo.Rng()}
			mod := []*ref.Rng{rs.Rng(), rs.Rng(), ro.Rng()}
			n := c.Choose("length", d2+1)
			var names []string
			pos := make([]int, 4)
			for i := 0; i < n; i++ {
				op := few[c.Choose("request", len(few))]
				k := c.Choose("stream", 4)
				if k == 3 && len(lib) == 3 {
					lib, mod = append(lib, ls.Rng()), append(mod, rs.Rng())
				}
				names = append(names, fmt.Sprintf("%d:%s", k, op.name))
				d := op.run(lib[k], func(n int) []byte { pos[k] += n; return mod[k].Next(n) })
				c.Check(d == "", "stream", "%v: last answer %s", names, d)
				c.Step(1)
				c.State(fmt.Sprint(pos))
			}
			c.Key(fmt.Sprint(names))
			for k := range lib {
				b := make([]byte, 9)
				lib[k].FillUint8(b)
				c.Check(diff(b, mod[k].Next(9)) == "", "stream", "after %v stream %d is at another position", names, k)
			}
			c.Check(seedDiff(ls, rs) == "" && seedDiff(lo, ro) == "", "parent", "drawing changed a seed")
			c.Eval(n + 2)
		},
	})
	sp = append(sp, &explore.Space{
		Name: "long-and-odd-fills", Bound: "fills of every size 0..600 after every offset 0..70, and 300 kB in pieces of 20 sizes",
		Run: func(c *explore.Ctx) {
			ls, rs := fx.LSeed("long")
			r, w := ls.Rng(), rs.Rng()
			if c.Bool("pieces") {
				k := []int{1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 63, 64, 65, 127, 256, 1000, 4096, 5000, 65536}[c.Choose("size", 20)]
				total := min(300000, k*20000)
				for done := 0; done < total; done += k {
					b := make([]byte, k)
					r.FillUint8(b)
					if d := diff(b, w.Next(k)); d != "" {
						c.Fail("stream", "bytes %d.. in pieces of %d: %s", done, k, d)
					}
					c.Eval(1)
				}
				c.Key("pieces", k)
				return
			}
			off := c.Choose("offset", 71)
			all := rs.Rng().Next(700)
			for n := 0; n <= 600; n++ {
				r := ls.Rng()
				d := fillOp(off, 0xff).run(r, func(int) []byte { return append([]byte{}, all[:off]...) })
				c.Check(d == "", "stream", "fill of %d: %s", off, d)
				d = fillOp(n, 0x77).run(r, func(int) []byte { return append([]byte{}, all[off:off+n]...) })
				c.Check(d == "", "stream", "fill of %d at %d: %s", n, off, d)
				c.Key(off, n)
				c.Eval(1)
			}
		},
	})
	labels := []string{"", "a", "b", "ab", "ic-crypto-seed-from-bytes", "\x00", strings.Repeat("l", 32), strings.Repeat("l", 254), strings.Repeat("l", 255), strings.Repeat("l", 256), strings.Repeat("l", 257) + "x", strings.Repeat("l", 257) + "y"}
	d3 := Pick(e, 4, 5)
	sp = append(sp, &explore.Space{
		Name: "seed-trees", Bound: fmt.Sprintf("every sequence of up to %d derivations with %d labels, each from any seed made so far; every seed observed at the end", d3, len(labels)),
		Run: func(c *explore.Ctx) {
			ls, rs := fx.LSeed("root")
			lib, mod := []*seed.Seed{ls}, []ref.Seed{rs}
			names := []string{"root"}
			n := c.Choose("length", d3+1)
			for i := 0; i < n; i++ {
				k := c.Choose("parent", len(lib))
				l := labels[c.Choose("label", len(labels))]
				lib, mod = append(lib, lib[k].Derive(l)), append(mod, mod[k].Derive(l))
				names = append(names, names[k]+"/"+shortName(l))
				c.State(string(mod[i+1]))
				c.Step(1)
			}
			for i := range lib {
				d := seedDiff(lib[i], mod[i])
				c.Check(d == "", "seed", "seed %s after deriving %v: %s", names[i], names, d)
				for j := range lib {
					if names[i] != names[j] {
						c.Check(!bytes.Equal(mod[i], mod[j]), "collision", "seeds %s and %s agree", names[i], names[j])
					}
				}
			}
			c.Key(fmt.Sprint(names))
			c.Eval(len(lib))
		},
	}, &explore.Space{
		Name: "seed-inputs", Bound: "seeds from every input length 0..300 in 3 contents, alone and with every separator length 0..300; every single-byte change of a 64 byte input",
		Run: func(c *explore.Ctx) {
			switch c.Choose("family", 3) {
			case 0:
				n, p := c.Choose("length", 301), c.Choose("content", 3)
				in, ok := fx.Canary(filled(p, n))
				d := seedDiff(seed.FromBytes(in), ref.SeedFromBytes(filled(p, n)))
				c.Check(d == "", "seed", "from %d bytes: %s", n, d)
				c.Check(ok(), "input changed", "the input was changed")
				c.Key(n, p)
			case 1:
				n := c.Choose("separator length", 301)
				dst := strings.Repeat("s", n)
				in, ok := fx.Canary(filled(2, 40))
				d := seedDiff(seed.NewSeed(in, dst), ref.NewSeed(filled(2, 40), dst))
				c.Check(d == "", "seed", "separator of %d bytes: %s", n, d)
				c.Check(ok(), "input changed", "the input was changed")
			case 2:
				in := filled(2, 64)
				i := c.Choose("position", 64)
				for v := 0; v < 256; v++ {
					in[i] = byte(v)
					s := seed.FromBytes(in)
					in[0] ^= 1 // the seed must not keep a reference
					d := seedDiff(s, func() ref.Seed { b := append([]byte{}, in...); b[0] ^= 1; return ref.SeedFromBytes(b) }())
					in[0] ^= 1
					c.Check(d == "", "seed", "byte %d = %d: %s", i, v, d)
					c.Key(in)
					c.Eval(1)
				}
			}
		},
	})
	return sp
}
