package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C17",
		Level: "exploration",
		Rule: "one execution is one hash call for a message, separator and output length (or one field element given to the curve map), compared with an independent implementation of " +
			"RFC 9380; distinct means distinct inputs",
		Assume: []string{"crypto/sha256 and math/big are correct", "messages and separators enter the hash as opaque bytes: three fill patterns per length represent all contents of that length"},
		Spaces: c17Spaces,
	})
}

// filled is a deterministic byte string.
func filled(pattern, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch pattern {
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i*7 + n + i>>8)
		}
	}
	return b
}

func span(lo, hi int) []int {
	var out []int
	for i := lo; i <= hi; i++ {
		out = append(out, i)
	}
	return out
}

func checkXmd(c *explore.Ctx, msg, dst []byte, n int) {
	m, mok := fx.Canary(msg)
	d, dok := fx.Canary(dst)
	got, err := seed.ExpandMessageXmd(m, d, n)
	want := ref.Xmd(msg, dst, n)
	c.Check((err == nil) == (n <= 8160), "acceptance", "expanding %d bytes with a %d byte separator to %d bytes: %s", len(msg), len(dst), n, errStr(err))
	if err == nil {
		c.Check(bytes.Equal(got, want), "expansion", "expanding %d bytes with a %d byte separator to %d bytes gives %s, want %s", len(msg), len(dst), n, short(got), short(want))
	}
	c.Check(mok() && dok(), "input changed", "message or separator (or the memory behind it) was changed")
}

func c17Spaces(e Env) []*explore.Space {
	msgs := []int{0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128, 255, 256, 257, 1000}
	dsts := []int{0, 1, 16, 31, 32, 33, 43, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 1000}
	outs := []int{0, 1, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 144, 255, 256, 257, 511, 512, 1024, 4096, 8128, 8159, 8160, 8161, 8192, 65535, 65536, 65568, 1 << 20}
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "expansion-grid", Bound: fmt.Sprintf("%d message lengths x %d separator lengths x %d output lengths x 3 contents", len(msgs), len(dsts), len(outs)),
		Run: func(c *explore.Ctx) {
			m, d, p := msgs[c.Choose("message length", len(msgs))], dsts[c.Choose("separator length", len(dsts))], c.Choose("content", 3)
			for _, n := range outs {
				c.Key(m, d, n, p)
				checkXmd(c, filled(p, m), filled(2-p, d), n)
			}
			c.Eval(len(outs))
		},
	})
	maxDst, maxMsg := Pick(e, 600, 5000), Pick(e, 600, 5000)
	sp = append(sp, &explore.Space{
		Name: "expansion-every-length", Bound: fmt.Sprintf("every output length 0..8300, every separator length 0..%d, every message length 0..%d, with the others fixed", maxDst, maxMsg),
		Run: func(c *explore.Ctx) {
			const chunk = 50
			p := c.Choose("content", 3)
			do := func(label string, n int, f func(i int)) {
				k := c.Choose(label, n/chunk+1)
				for i := k * chunk; i < (k+1)*chunk && i <= n; i++ {
					c.Key(label, i, p)
					f(i)
					c.Eval(1)
				}
			}
			switch c.Choose("varied", 3) {
			case 0:
				do("output length", 8300, func(i int) { checkXmd(c, filled(p, 13), filled(2, 40), i) })
			case 1:
				do("separator length", maxDst, func(i int) { checkXmd(c, filled(2, 13), filled(p, i), 96) })
			case 2:
				do("message length", maxMsg, func(i int) { checkXmd(c, filled(p, i), filled(2, 40), 48) })
			}
		},
	})
	// single-byte sensitivity: every position of message and separator
	sp = append(sp, &explore.Space{
		Name: "expansion-positions", Bound: "every single-byte change of a 200 byte message and of separators of 60, 255 and 300 bytes",
		Run: func(c *explore.Ctx) {
			m, d := filled(2, 200), filled(2, []int{60, 255, 300}[c.Choose("separator length", 3)])
			x := m
			if c.Bool("separator") {
				x = d
			}
			i := c.Choose("position", len(x))
			x[i] ^= 0x80
			c.Key(m, d)
			checkXmd(c, m, d, 64)
		},
	})
	counts := []int{0, 1, 2, 3, 4, 5, 8, 16, 85, 86, 169, 170, 171, 172, 1366, 1000000}
	hm := []int{0, 1, 32, 33, 64, 200, 300}
	sp = append(sp, &explore.Space{
		Name: "hash-to-field-and-scalar", Bound: fmt.Sprintf("%d counts x %d message lengths x %d separator lengths x 3 contents, both moduli", len(counts), len(hm), len(dsts)),
		Run: func(c *explore.Ctx) {
			n := counts[c.Choose("count", len(counts))]
			m, d, p := hm[c.Choose("message length", len(hm))], dsts[c.Choose("separator length", len(dsts))], c.Choose("content", 3)
			msg, mok := fx.Canary(filled(p, m))
			dst, dok := fx.Canary(filled(2-p, d))
			c.Key(n, m, d, p)
			want := ref.HashToScalars(n, msg, dst)
			got, err := curve.HashToScalar(n, fx.K, msg, dst)
			got2, err2 := curve.Scalar.HashToSeveralScalar(fx.K, n, msg, dst)
			fw := ref.HashToField(n, msg, dst)
			fg, err3 := curve.HashToField(n, fx.K, msg, dst)
			ok := n*48 <= 8160
			c.Check((err == nil) == ok && (err2 == nil) == ok && (err3 == nil) == ok, "acceptance", "%d elements: %s, %s, %s", n, errStr(err), errStr(err2), errStr(err3))
			c.Check(mok() && dok(), "input changed", "message or separator (or the memory behind it) was changed")
			if !ok {
				return
			}
			c.Check(len(got) == n && len(got2) == n && len(fg) == n, "count", "%d elements requested, %d, %d, %d returned", n, len(got), len(got2), len(fg))
			for i := range want {
				observeScalar(c, fmt.Sprintf("scalar %d of %d (message %d bytes, separator %d bytes)", i, n, m, d), got[i], want[i])
				c.Check(fx.SEq(got2[i], want[i]), "value", "HashToSeveralScalar %d of %d", i, n)
				observeField(c, fmt.Sprintf("field element %d of %d (message %d bytes, separator %d bytes)", i, n, m, d), fg[i], fw[i])
			}
			if n == 1 {
				one, err := curve.Scalar.HashToScalar(fx.K, msg, dst)
				c.Check(err == nil && fx.SEq(one, want[0]), "value", "HashToScalar")
			}
		},
	})
	fa := fieldAlphabet(e)
	// the inputs for which the map's first denominator vanishes
	r, ok := ref.FSqrt(bmod(ref.FP, new(big.Int).ModInverse(ref.I(11), ref.FP)))
	if ok {
		fa = append(fa, r, bmod(ref.FP, new(big.Int).Neg(r)))
	}
	n := Pick(e, 16384, 400000)
	sp = append(sp, &explore.Space{
		Name: "curve-map", Bound: fmt.Sprintf("%d boundary field elements, all u < %d, all u > p-%d", len(fa), n, n),
		Run: func(c *explore.Ctx) {
			do := func(u *big.Int) {
				x := fieldOf(u)
				c.Key(u)
				want := ref.MapToCurve(u)
				got, err := curve.MapToCurve(x)
				c.Check(err == nil, "map error", "mapping %x: %v", u, err)
				c.Check(fx.PEq(got, want), "map", "%x maps to %x, want %x", u, got.Serialize(), want.Bytes())
				observeField(c, "argument of the curve map", x, u)
				c.Eval(1)
			}
			switch c.Choose("family", 3) {
			case 0:
				u := fa[c.Choose("element", len(fa))]
				do(u)
				got, _ := curve.MapToCurve(fieldOf(u))
				observePoint(c, fmt.Sprintf("the image of %x", u), got, ref.MapToCurve(u))
			case 1:
				b := c.Choose("block", n/32)
				for i := 0; i < 32; i++ {
					do(ref.I(int64(b*32 + i)))
				}
			case 2:
				b := c.Choose("block", n/32)
				for i := 0; i < 32; i++ {
					do(new(big.Int).Sub(ref.FP, ref.I(int64(b*32+i+1))))
				}
			}
		},
	}, &explore.Space{
		Name: "hash-to-curve", Bound: fmt.Sprintf("%d message lengths x %d separator lengths x 3 contents", len(msgs), len(dsts)),
		Run: func(c *explore.Ctx) {
			m, d, p := msgs[c.Choose("message length", len(msgs))], dsts[c.Choose("separator length", len(dsts))], c.Choose("content", 3)
			msg, mok := fx.Canary(filled(p, m))
			dst, dok := fx.Canary(filled(2-p, d))
			c.Key(m, d, p)
			want := ref.HashToCurve(msg, dst)
			got, err := curve.HashToCurveRo(fx.K, msg, dst)
			c.Check(err == nil, "hash error", "hashing: %v", err)
			c.Check(fx.PEq(got, want), "hash to curve", "message %d bytes, separator %d bytes: %x, want %x", m, d, got.Serialize(), want.Bytes())
			got2, err := curve.Point.HashToPoint(fx.K, msg, dst)
			c.Check(err == nil && fx.PEq(got2, want), "hash to curve", "HashToPoint differs")
			c.Check(mok() && dok(), "input changed", "message or separator (or the memory behind it) was changed")
			if p == 2 {
				observePoint(c, "hashed point", got, want)
			}
		},
	})
	return sp
}
