package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/fxamacker/cbor/v2"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C12",
		Level: "exploration",
		Rule: "one execution is one byte string (or one pair of coordinates, or one point) given to every decoding entry point (or encoder); every answer is compared with an " +
			"independent decoder; distinct means distinct byte strings",
		Assume: []string{"byte strings outside the enumerated tags, lengths, coordinates and bit flips are treated like those inside", "math/big is correct"},
		Spaces: c12Spaces,
	})
}

// decodeEverywhere gives b to every entry point and compares with the reference.
func decodeEverywhere(c *explore.Ctx, b []byte) {
	c.Key(b)
	in, intact := fx.Canary(b)
	p, ok := ref.DecodePoint(b)
	x, err := curve.Point.Deserialize(fx.K, in)
	c.Check((err == nil) == ok, "Deserialize acceptance", "Deserialize(%x): %s, want accepted=%v", b, errStr(err), ok)
	if ok {
		observePoint(c, fmt.Sprintf("Deserialize(%x)", b), x, p)
	}
	q, okAny := ref.DecodeAny(b)
	y, err := curve.Point.DeserializeAnyFormat(fx.K, in)
	c.Check((err == nil) == okAny, "any-format acceptance", "DeserializeAnyFormat(%x): %s, want accepted=%v", b, errStr(err), okAny)
	if okAny {
		observePoint(c, fmt.Sprintf("DeserializeAnyFormat(%x)", b), y, q)
	}
	z, err := curve.K256Point.Deserialize(in)
	c.Check((err == nil) == okAny, "any-format acceptance", "K256Point.Deserialize(%x): %s, want accepted=%v", b, errStr(err), okAny)
	if okAny {
		observePoint(c, fmt.Sprintf("K256Point.Deserialize(%x)", b), z, q)
	}
	c.Check(intact(), "input changed", "decoding %x changed its input", b)
	// the same string as the body of tagged and CBOR encodings
	for _, tag := range []byte{1, 0, 2} {
		decodeTagged(c, append([]byte{tag}, b...))
	}
	c.Eval(3)
}

func decodeTagged(c *explore.Ctx, b []byte) {
	var p ref.P
	ok := false
	if len(b) > 0 && b[0] == 1 {
		p, ok = ref.DecodePoint(b[1:])
	}
	in, intact := fx.Canary(b)
	x, err := curve.Point.DeserializeTagged(fx.K, in)
	c.Check((err == nil) == ok, "tagged acceptance", "DeserializeTagged(%x): %s, want accepted=%v", b, errStr(err), ok)
	if ok {
		observePoint(c, fmt.Sprintf("DeserializeTagged(%x)", b), x, p)
	}
	c.Check(intact(), "input changed", "decoding %x changed its input", b)
	enc := must(cbor.Marshal(b))
	u := curve.Point.GeneratorG(fx.K).(*curve.Secp256k1Point)
	err = cbor.Unmarshal(enc, u)
	c.Check((err == nil) == ok, "CBOR acceptance", "CBOR point %x: %s, want accepted=%v", enc, errStr(err), ok)
	if ok {
		observePoint(c, fmt.Sprintf("CBOR point %x", enc), u, p)
	} else {
		observePoint(c, "point after failed CBOR decoding", u, ref.G)
	}
	c.Eval(2)
}

// unreduced coordinates: x + p still fits 32 bytes
func small(v int64) *big.Int { return new(big.Int).Add(ref.FP, big.NewInt(v)) }

func xAlphabet(e Env) []*big.Int {
	p256 := new(big.Int).Lsh(big.NewInt(1), 256)
	l := []*big.Int{ref.I(0), ref.I(1), ref.I(2), ref.I(3), ref.I(4), ref.I(5), ref.I(6), ref.I(7), ref.I(8), ref.G.X, ref.G.Y, ref.H.X, ref.N,
		new(big.Int).Sub(ref.FP, ref.I(1)), new(big.Int).Sub(ref.FP, ref.I(2)), new(big.Int).Sub(ref.FP, ref.I(3)), new(big.Int).Sub(p256, ref.I(1))}
	for i := int64(0); i <= 8; i++ {
		l = append(l, small(i))
	}
	n := Pick(e, 40, 400)
	for i := 0; i < n; i++ {
		l = append(l, bmod(ref.FP, new(big.Int).Mul(ref.G.X, big.NewInt(int64(i+2)))))
	}
	return l
}

func c12Spaces(e Env) []*explore.Space {
	pts := pointAlphabet(e)
	xs := xAlphabet(e)
	valid := []ref.P{ref.G, ref.H, ref.G.Neg()}
	if e.Thorough {
		for i := 0; i < 8; i++ {
			valid = append(valid, ref.MulG(randScalar(e, "valid", i)))
		}
	}
	// a point whose x or y has leading zero bytes
	for i := int64(1); i < 6; i++ {
		if p, ok := ref.DecodePoint(append([]byte{2}, ref.Bytes32(ref.I(i))...)); ok {
			valid = append(valid, p)
		}
	}
	seeds := map[string][]byte{
		"zero": {}, "ones": bytes.Repeat([]byte{0xff}, 80), "G": append(append([]byte{}, ref.G.Uncompressed()[1:]...), ref.H.Uncompressed()[1:]...),
		"p": append(append(ref.Bytes32(ref.FP), ref.Bytes32(ref.FP)...), ref.Bytes32(ref.FP)...), "x=1": append(ref.Bytes32(ref.I(1)), ref.Bytes32(valid[len(valid)-1].Y)...)}
	names := []string{"zero", "ones", "G", "p", "x=1"}
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "tags-and-lengths", Bound: "all 256 first bytes x all lengths 0..70 x 5 body patterns, every entry point",
		Run: func(c *explore.Ctx) {
			n := c.Choose("length", 71)
			if n == 0 {
				decodeEverywhere(c, []byte{})
				_, err := curve.Point.Deserialize(fx.K, nil)
				c.Check(err != nil, "Deserialize acceptance", "nil accepted")
				_, err = curve.Point.DeserializeAnyFormat(fx.K, nil)
				c.Check(err != nil, "any-format acceptance", "nil accepted")
				_, err = curve.Point.DeserializeTagged(fx.K, nil)
				c.Check(err != nil, "tagged acceptance", "nil accepted")
				return
			}
			tag := c.Choose("tag", 256)
			b := make([]byte, n)
			copy(b[1:], seeds[names[c.Choose("body", len(names))]])
			b[0] = byte(tag)
			decodeEverywhere(c, b)
			decodeTagged(c, b)
		},
	}, &explore.Space{
		Name: "coordinates", Bound: fmt.Sprintf("%d x-coordinates (reduced and not) x tags 2..7 x y-coordinates (root, other root, unreduced root, 0, 1, p, near root)", len(xs)),
		Run: func(c *explore.Ctx) {
			x := xs[c.Choose("x", len(xs))]
			tag := byte(2 + c.Choose("tag", 6))
			if tag == 2 || tag == 3 || tag == 5 {
				decodeEverywhere(c, append([]byte{tag}, ref.Bytes32(x)...))
				return
			}
			rhs := new(big.Int).Exp(x, ref.I(3), ref.FP)
			root, ok := ref.FSqrt(bmod(ref.FP, rhs.Add(rhs, ref.I(7))))
			if !ok {
				root = ref.I(9)
			}
			ys := []*big.Int{root, bmod(ref.FP, new(big.Int).Neg(root)), new(big.Int).Add(root, ref.I(1)), ref.I(0), ref.I(1), ref.FP, new(big.Int).Add(root, ref.FP), new(big.Int).Sub(new(big.Int).Lsh(ref.I(1), 256), ref.I(1))}
			y := ys[c.Choose("y", len(ys))]
			if y.BitLen() > 256 {
				c.Skip()
			}
			decodeEverywhere(c, append(append([]byte{tag}, ref.Bytes32(x)...), ref.Bytes32(y)...))
		},
	}, &explore.Space{
		Name: "unreduced-y", Bound: "points whose y-coordinate is small enough to have an unreduced encoding",
		Run: func(c *explore.Ctx) {
			// x^3 = y^2 - 7: find cube roots for small y (p = 7 mod 9)
			y := int64(c.Choose("y", Pick(e, 60, 400)))
			v := bmod(ref.FP, big.NewInt(y*y-7))
			exp := new(big.Int).Add(new(big.Int).Lsh(ref.FP, 0), ref.I(2))
			exp.Div(exp, ref.I(9))
			x := new(big.Int).Exp(v, exp, ref.FP)
			if new(big.Int).Exp(x, ref.I(3), ref.FP).Cmp(v) != 0 {
				c.Skip()
			}
			yy := big.NewInt(y)
			if c.Bool("unreduced") {
				yy = small(y)
			}
			decodeEverywhere(c, append(append([]byte{4}, ref.Bytes32(x)...), ref.Bytes32(yy)...))
			decodeEverywhere(c, append([]byte{byte(2 + y&1)}, ref.Bytes32(x)...))
		},
	}, &explore.Space{
		Name: "bit-flips", Bound: fmt.Sprintf("every single-bit change, every truncation and one-byte extension of the encodings of %d points in every format", len(valid)),
		Run: func(c *explore.Ctx) {
			p := valid[c.Choose("point", len(valid))]
			f := c.Choose("format", 4)
			var b []byte
			switch f {
			case 0:
				b = p.Bytes()
			case 1:
				b = p.Uncompressed()
			case 2:
				b = p.Bytes()
				b[0] = 5
			case 3:
				b = p.Tagged()
			}
			b = append([]byte{}, b...)
			switch c.Choose("change", 3) {
			case 0:
				i := c.Choose("bit", len(b)*8)
				b[i/8] ^= 1 << (i % 8)
			case 1:
				b = b[:c.Choose("length", len(b))]
			case 2:
				b = append(b, byte(c.Choose("extra", 2)*255))
			}
			if f == 3 {
				decodeTagged(c, b)
				c.Key("tagged", b)
			} else {
				decodeEverywhere(c, b)
			}
		},
	}, &explore.Space{
		Name: "cbor", Bound: "every single-byte change, truncation and extension of CBOR encodings of points, and CBOR values of other types",
		Run: func(c *explore.Ctx) {
			p := valid[c.Choose("point", 3)]
			enc := must(cbor.Marshal(p.Tagged()))
			switch c.Choose("change", 4) {
			case 0:
				i := c.Choose("byte", len(enc))
				enc[i] ^= []byte{1, 0x20, 0x80, 0xff}[c.Choose("mask", 4)]
			case 1:
				enc = enc[:c.Choose("length", len(enc))]
			case 2:
				enc = append(enc, 0)
			case 3:
				vals := []any{nil, 5, "text", []int{1, 2, 3}, map[string]int{"a": 1}, true, 1.5, string(p.Tagged()), [][]byte{p.Tagged()}, []byte{}, []byte{1}}
				enc = must(cbor.Marshal(vals[c.Choose("value", len(vals))]))
			}
			c.Key("cbor", enc)
			var body []byte
			werr := cbor.Unmarshal(enc, &body)
			var q ref.P
			ok := false
			if werr == nil && len(body) > 0 && body[0] == 1 {
				q, ok = ref.DecodePoint(body[1:])
			}
			u := curve.Point.GeneratorH(fx.K).(*curve.Secp256k1Point)
			err := cbor.Unmarshal(enc, u)
			// a CBOR null leaves any Go value alone without calling the decoder
			if len(enc) == 1 && (enc[0] == 0xf6 || enc[0] == 0xf7) {
				return
			}
			c.Check((err == nil) == ok, "CBOR acceptance", "CBOR point %x: %s, want accepted=%v", enc, errStr(err), ok)
			if ok {
				observePoint(c, fmt.Sprintf("CBOR point %x", enc), u, q)
			}
			err = u.UnmarshalCBOR(append([]byte{}, enc...))
			c.Check((err == nil) == ok, "CBOR acceptance", "UnmarshalCBOR(%x): %s, want accepted=%v", enc, errStr(err), ok)
		},
	}, &explore.Space{
		Name: "round-trips", Bound: fmt.Sprintf("every point of the alphabet in both representations through every encoder and decoder; equal points give equal bytes"),
		Run: func(c *explore.Ctx) { encodeRoundTrip(c, pts[c.Choose("point", len(pts))]) },
	}, &explore.Space{
		Name: "round-trips-generated", Bound: fmt.Sprintf("the first %d multiples of G and %d points with small x", Pick(e, 200, 3000), Pick(e, 60, 600)),
		Run: func(c *explore.Ctx) {
			var p ref.P
			if c.Bool("small x") {
				var ok bool
				if p, ok = ref.DecodePoint(append([]byte{byte(2 + c.Choose("parity", 2))}, ref.Bytes32(ref.I(int64(c.Choose("x", Pick(e, 60, 600)))))...)); !ok {
					c.Skip()
				}
			} else {
				p = ref.MulG(ref.I(int64(c.Choose("multiple", Pick(e, 200, 3000)) + 1)))
			}
			encodeRoundTrip(c, pointVal{fmt.Sprintf("%x", p.Bytes()), p, func() curve.EccPoint { return fx.Rebase(fx.Pt(p)) }})
		},
	}, &explore.Space{
		Name: "field-coordinates", Bound: "FromFieldElems over all pairs of boundary coordinates and matching roots",
		Run: func(c *explore.Ctx) {
			fa := fieldAlphabet(e)
			x := fa[c.Choose("x", len(fa))]
			rhs := new(big.Int).Exp(x, ref.I(3), ref.FP)
			root, ok := ref.FSqrt(bmod(ref.FP, rhs.Add(rhs, ref.I(7))))
			if !ok {
				root = ref.I(9)
			}
			ys := append([]*big.Int{root, bmod(ref.FP, new(big.Int).Neg(root))}, fa...)
			y := ys[c.Choose("y", len(ys))]
			c.Key("fe", x, y)
			fxv, fyv := fieldOf(x), fieldOf(y)
			p, err := curve.Point.FromFieldElems(fxv, fyv)
			c.Check((err == nil) == ref.OnCurve(x, y), "acceptance", "FromFieldElems(%x, %x): %s", x, y, errStr(err))
			if err == nil {
				observePoint(c, "point from coordinates", p, ref.P{X: x, Y: y})
				observeField(c, "x", p.AffineX(), x)
				observeField(c, "y", p.AffineY(), y)
			}
			observeField(c, "operand", fxv, x)
			observeField(c, "operand", fyv, y)
		},
	}, &explore.Space{
		Name: "encoded-point", Bound: "the encoded-point container: all tags 0..255 x lengths 0..70: acceptance, tag, coordinates, compression",
		Run: func(c *explore.Ctx) {
			n := c.Choose("length", 71)
			b := make([]byte, n)
			copy(b, append([]byte{0}, seeds[names[c.Choose("body", len(names))]]...))
			tag := 0
			if n > 0 {
				tag = c.Choose("tag", 256)
				b[0] = byte(tag)
			}
			c.Key("enc", b)
			want := n > 0 && (tag == 0 && n == 1 || (tag == 2 || tag == 3 || tag == 5) && n == 33 || tag == 4 && n == 65)
			in, intact := fx.Canary(b)
			ep, err := curve.Encode.FromBytes(in)
			c.Check((err == nil) == want, "acceptance", "Encode.FromBytes(%x): %s, want accepted=%v", b, errStr(err), want)
			c.Check(intact(), "input changed", "Encode.FromBytes changed its input")
			es, err := curve.Encode.FromStr(hex.EncodeToString(b))
			c.Check((err == nil) == want, "acceptance", "Encode.FromStr(%x): %s, want accepted=%v", b, errStr(err), want)
			if !want {
				return
			}
			for _, p := range []curve.EncodePoint{ep, es} {
				c.Check(p.Len() == n && bytes.Equal(p.AsBytes(), b) && p.ToString() == hex.EncodeToString(b), "content", "encoded point %x reads back as %x", b, p.AsBytes())
				c.Check(p.Tag() == curve.Tag(tag) && p.Coordinates().Tag() == curve.Tag(tag), "tag", "tag of %x", b)
				c.Check(p.IsIdentity() == (tag == 0) && p.IsCompact() == (tag == 5) && p.IsCompressed() == (tag == 2 || tag == 3), "kind", "kind of %x", b)
				if tag != 0 {
					c.Check(bytes.Equal(p.X(), b[1:33]), "x", "x of %x is %x", b, p.X())
				}
				cw := b
				if tag == 4 {
					c.Check(bytes.Equal(p.Y(), b[33:]), "y", "y of %x is %x", b, p.Y())
					cw = append([]byte{2 + b[64]&1}, b[1:33]...)
					u := curve.Encode.FromUnTaggedBytes(append([]byte{}, b[1:]...))
					c.Check(bytes.Equal(u.AsBytes(), b), "untagged", "untagged %x becomes %x", b, u.AsBytes())
				} else {
					c.Check(p.Y() == nil, "y", "y of %x is %x", b, p.Y())
				}
				c.Check(bytes.Equal(p.Compress().AsBytes(), cw), "compress", "compressing %x gives %x", b, p.Compress().AsBytes())
				c.Check(bytes.Equal(p.AsBytes(), b), "changed", "compressing changed %x", b)
			}
		},
	})
	sp = append(sp, &explore.Space{
		Name: "malformed-text", Bound: "the hexadecimal text of every kind of encoded point with one character replaced, removed or added at every position: acceptance, and the content where it still is an encoding",
		Run: func(c *explore.Ctx) {
			texts := []string{"00", "02" + hex.EncodeToString(ref.Bytes32(ref.G.X)), "05" + hex.EncodeToString(ref.Bytes32(ref.G.X)), "04" + hex.EncodeToString(append(ref.Bytes32(ref.G.X), ref.Bytes32(ref.G.Y)...))}
			t := texts[c.Choose("text", len(texts))]
			at := c.Choose("position", len(t)+1)
			ins := []string{"", "g", "G", " ", "\x00", "/", ":", "@", "`", "-", "\n", "\xff", "0", "5", "a", "F", "0x", "00", "zz"}
			w := ins[c.Choose("written", len(ins))]
			drop := c.Choose("dropped", 3)
			if at+drop > len(t) {
				c.Skip()
			}
			m := t[:at] + w + t[at+drop:]
			c.Key("malformed", m)
			b, bad := hex.DecodeString(m)
			n := len(b)
			want := bad == nil && n > 0 && (b[0] == 0 && n == 1 || (b[0] == 2 || b[0] == 3 || b[0] == 5) && n == 33 || b[0] == 4 && n == 65)
			p, err := curve.Encode.FromStr(m)
			c.Check((err == nil) == want, "acceptance", "Encode.FromStr(%q): %s, want accepted=%v", m, errStr(err), want)
			if want {
				c.Check(bytes.Equal(p.AsBytes(), b), "content", "Encode.FromStr(%q) reads as %x", m, p.AsBytes())
			}
		},
	}, &explore.Space{
		Name: "encoded-point-operations", Bound: "encoded points built in each of 9 ways from 5 pairs of coordinates, then every sequence of up to 3 out of 9 operations (compress, select, re-read from bytes, text or untagged bytes); bytes, text, coordinates and kind after each",
		Run: func(c *explore.Ctx) { encodedPoints(c, Pick(e, 3, 4)) },
	})
	return sp
}

// encodedPoints explores histories of the encoded-point container against the
// byte string it denotes.
func encodedPoints(c *explore.Ctx, depth int) {
	xs := [][]byte{ref.Bytes32(ref.G.X), ref.Bytes32(ref.I(0)), bytes.Repeat([]byte{0xff}, 32), ref.Bytes32(ref.H.X), bytes.Repeat([]byte{2}, 32)}
	ys := [][]byte{ref.Bytes32(ref.G.Y), ref.Bytes32(ref.I(1)), bytes.Repeat([]byte{0xff}, 32), ref.Bytes32(ref.H.Y), bytes.Repeat([]byte{4}, 32)}
	k := c.Choose("coordinates", len(xs))
	x, y := xs[k], ys[k]
	cat := func(t byte, l ...[]byte) []byte { return append([]byte{t}, bytes.Join(l, nil)...) }
	odd := 2 + y[31]&1
	how := c.Choose("made", 9)
	var want []byte
	var p curve.EncodePoint
	E := curve.Encode
	switch how {
	case 0:
		want = cat(4, x, y)
		p = must(E.FromBytes(want))
	case 1:
		want = cat(odd, x)
		p = must(E.FromBytes(want))
	case 2:
		want = cat(5, x)
		p = must(E.FromBytes(want))
	case 3:
		want = []byte{0}
		p = must(E.FromBytes(want))
	case 4:
		want = cat(4, x, y)
		p = E.FromAffineCoordinates(x, y, false)
	case 5:
		want = cat(odd, x)
		p = E.FromAffineCoordinates(x, y, true)
	case 6:
		want = cat(4, x, y)
		p = E.FromUnTaggedBytes(append(append([]byte{}, x...), y...))
	case 7:
		want = []byte{0}
		p = E.Identity()
	case 8:
		want = []byte{0}
		p = E.Default()
	}
	other := cat(3, xs[3])
	what := fmt.Sprintf("made %d from %x", how, want)
	look := func() {
		c.Check(bytes.Equal(p.AsBytes(), want) && p.Len() == len(want), "content", "%s: reads back as %x (length %d), want %x", what, p.AsBytes(), p.Len(), want)
		c.Check(p.ToString() == hex.EncodeToString(want), "text", "%s: as text %s, want %x", what, p.ToString(), want)
		t := want[0]
		c.Check(p.Tag() == curve.Tag(t) && p.Coordinates().Tag() == curve.Tag(t) && p.IsIdentity() == (t == 0) && p.IsCompact() == (t == 5) && p.IsCompressed() == (t == 2 || t == 3), "kind", "%s: kind", what)
		wx, wy := []byte(nil), []byte(nil)
		if t != 0 {
			wx = want[1:33]
		}
		if t == 4 {
			wy = want[33:]
		}
		c.Check(bytes.Equal(p.X(), wx) && bytes.Equal(p.Y(), wy), "coordinates", "%s: coordinates %x %x", what, p.X(), p.Y())
		q, qe := curve.K256Point.Deserialize(want)
		_ = q
		r, ok := ref.DecodeAny(want)
		c.Check((qe == nil) == ok, "acceptance", "%s: decoding", what)
		if ok {
			observePoint(c, what, q, r)
		}
		c.Eval(5)
	}
	look()
	n := c.Choose("operations", depth+1)
	for i := 0; i < n; i++ {
		op := c.Choose("operation", 9)
		switch op {
		case 0:
			p = p.Compress()
			if want[0] == 4 {
				want = cat(2+want[64]&1, want[1:33])
			}
		case 1:
			p = must(E.FromBytes(p.AsBytes()))
		case 2:
			q, err := E.FromStr(p.ToString())
			c.Check(err == nil, "text", "%s: its text is refused: %s", what, errStr(err))
			p = q
		case 3, 4:
			p = E.ConditionalSelect(p, must(E.FromBytes(other)), op-3)
			if op == 4 {
				want = other
			}
		case 5, 6:
			p = E.ConditionalSelect(must(E.FromBytes(other)), p, op-5)
			if op == 5 {
				want = other
			}
		case 7:
			if want[0] != 4 {
				c.Skip()
			}
			p = E.FromUnTaggedBytes(p.AsBytes()[1:])
		case 8:
			if want[0] != 4 {
				c.Skip()
			}
			p = E.FromAffineCoordinates(p.X(), p.Y(), true)
			want = cat(2+want[64]&1, want[1:33])
		}
		what += fmt.Sprint(" then ", op)
		look()
	}
	c.Key("encoded", what)
}

func encodeRoundTrip(c *explore.Ctx, a pointVal) {
	c.Key("round trip", a.name)
	x := a.make()
	s := x.Serialize()
	c.Check(bytes.Equal(s, a.p.Bytes()), "Serialize", "%s serializes to %x, want %x", a.name, s, a.p.Bytes())
	y, err := curve.Point.Deserialize(fx.K, s)
	c.Check(err == nil, "round trip", "%s: %s", a.name, errStr(err))
	observePoint(c, "round trip of "+a.name, y, a.p)
	t := x.SerializeTagged()
	c.Check(bytes.Equal(t, a.p.Tagged()), "SerializeTagged", "%s: %x, want %x", a.name, t, a.p.Tagged())
	y, err = curve.Point.DeserializeTagged(fx.K, t)
	c.Check(err == nil, "tagged round trip", "%s: %s", a.name, errStr(err))
	observePoint(c, "tagged round trip of "+a.name, y, a.p)
	u := x.SerializeUncompressed()
	if a.p.IsIdentity() {
		y, err = curve.Point.DeserializeAnyFormat(fx.K, u)
		if err != nil {
			y, err = curve.Point.Deserialize(fx.K, u)
		}
	} else {
		c.Check(bytes.Equal(u, a.p.Uncompressed()), "SerializeUncompressed", "%s: %x, want %x", a.name, u, a.p.Uncompressed())
		y, err = curve.Point.DeserializeAnyFormat(fx.K, u)
	}
	c.Check(err == nil, "uncompressed round trip", "%s: %s", a.name, errStr(err))
	observePoint(c, "uncompressed round trip of "+a.name, y, a.p)
	enc := must(cbor.Marshal(x))
	c.Check(bytes.Equal(enc, must(cbor.Marshal(a.p.Tagged()))), "CBOR", "%s: CBOR %x", a.name, enc)
	d := curve.K256Point.NewK256()
	c.Check(cbor.Unmarshal(enc, d) == nil, "CBOR round trip", "%s: CBOR rejected", a.name)
	observePoint(c, "CBOR round trip of "+a.name, d, a.p)
	if !a.p.IsIdentity() {
		observePoint(c, "compact", must(curve.Point.DeserializeAnyFormat(fx.K, append([]byte{5}, a.p.Bytes()[1:]...))), evenY(a.p))
		z := must(curve.Point.FromFieldElems(x.AffineX(), x.AffineY()))
		observePoint(c, "point from affine coordinates", z, a.p)
	}
	observePoint(c, "original after encoding", x, a.p)
	c.Eval(10)
}

func evenY(p ref.P) ref.P {
	if p.Y.Bit(0) == 1 {
		return p.Neg()
	}
	return p
}
