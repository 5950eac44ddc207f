package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/fxamacker/cbor/v2"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C23",
		Level: "exploration",
		Rule: "one execution is one object serialized and read back, or one byte string given to a deserializer; the answer is compared with a decoder which takes the container apart " +
			"generically and checks every element with the reference; distinct means distinct byte strings or objects",
		Assume: []string{"the CBOR library splits containers correctly", "malformed encodings outside the enumerated truncations, byte changes and re-assembled containers are treated like those inside"},
		Spaces: c23Spaces,
	})
}

// container is the generic view of an encoded opening or commitment.
type openingBox struct {
	CurveType  int
	CommitType int
	Message    cbor.RawMessage
}

type commitmentBox struct {
	CurveType      int
	CommitmentType int
	Message        cbor.RawMessage
}

func elements(msg cbor.RawMessage) ([][]byte, bool) {
	var raw []cbor.RawMessage
	if cbor.Unmarshal(msg, &raw) != nil {
		return nil, false
	}
	out := make([][]byte, len(raw))
	for i, r := range raw {
		if cbor.Unmarshal(r, &out[i]) != nil {
			return nil, false
		}
	}
	return out, true
}

// refOpening decodes an opening; nil when it must be rejected.
func refOpening(b []byte) []*big.Int {
	var o openingBox
	if cbor.Unmarshal(b, &o) != nil || o.CurveType != 1 || (o.CommitType != 1 && o.CommitType != 2) {
		return nil
	}
	es, ok := elements(o.Message)
	if !ok || len(es) != o.CommitType {
		return nil
	}
	var out []*big.Int
	for _, e := range es {
		if len(e) != 33 || e[0] != 1 {
			return nil
		}
		v := new(big.Int).SetBytes(e[1:])
		if v.Cmp(ref.N) >= 0 {
			return nil
		}
		out = append(out, v)
	}
	return out
}

func refCommitment(b []byte) (ped bool, ps []ref.P, ok bool) {
	var o commitmentBox
	if cbor.Unmarshal(b, &o) != nil || o.CurveType != 1 || (o.CommitmentType != 1 && o.CommitmentType != 2) {
		return
	}
	es, eok := elements(o.Message)
	if !eok || len(es) == 0 {
		return
	}
	for _, e := range es {
		if len(e) != 34 || e[0] != 1 {
			return
		}
		p, pok := ref.DecodePoint(e[1:])
		if !pok {
			return
		}
		ps = append(ps, p)
	}
	return o.CommitmentType == 2, ps, true
}

func checkOpeningBytes(c *explore.Ctx, what string, b []byte) {
	in, intact := fx.Canary(b)
	want := refOpening(b)
	got, err := poly.Commitment.Deserialize(in)
	c.Check(intact(), "input changed", "%s: the encoding was changed", what)
	c.Check((err == nil) == (want != nil), "acceptance", "%s %x: %s, want accepted=%v", what, b, errStr(err), want != nil)
	c.Outcome(err == nil)
	if err == nil {
		c.Check(fx.OpEq(got, want), "value", "%s %x: opening %s, want %x", what, b, fx.ShowOp(got), want)
		for i := range in {
			in[i] ^= 0xff
		}
		c.Check(fx.OpEq(got, want), "value", "%s: the opening shares memory with its encoding", what)
		again, err := got.Serialize()
		c.Check(err == nil, "serialize", "%s: %v", what, err)
		back := refOpening(again)
		c.Check(len(back) == len(want), "round trip", "%s: encoded again as %x", what, again)
		for i := range want {
			c.Check(back[i].Cmp(want[i]) == 0, "round trip", "%s: encoded again as %x", what, again)
		}
	} else {
		c.Check(got == nil, "value with error", "%s: an opening is returned together with an error", what)
	}
	c.Eval(2)
}

func checkCommitmentBytes(c *explore.Ctx, what string, b []byte) {
	in, intact := fx.Canary(b)
	ped, ps, ok := refCommitment(b)
	got, err := poly.VerifDeserializeCommitment(in)
	c.Check(intact(), "input changed", "%s: the encoding was changed", what)
	c.Check((err == nil) == ok, "acceptance", "%s %x: %s, want accepted=%v", what, b, errStr(err), ok)
	c.Outcome(err == nil)
	if ok {
		observeCommitment(c, fmt.Sprintf("%s %x", what, b), got, ped, ps)
		again, err := got.Serialize()
		c.Check(err == nil, "serialize", "%s: %v", what, err)
		p2, ps2, ok2 := refCommitment(again)
		c.Check(ok2 && p2 == ped && len(ps2) == len(ps), "round trip", "%s: encoded again as %x", what, again)
		for i := range ps {
			c.Check(ps[i].Equal(ps2[i]), "round trip", "%s: encoded again as %x", what, again)
		}
	}
	c.Eval(2)
}

// edits enumerates the malformed variants of an encoding.
func edited(c *explore.Ctx, good []byte, wide bool) []byte {
	switch c.Choose("edit", 5) {
	case 0:
		return good[:c.Choose("length", len(good))]
	case 1:
		b := append([]byte{}, good...)
		b[c.Choose("position", len(good))] ^= byte(1 + c.Choose("difference", 255))
		return b
	case 2:
		return append(append([]byte{}, good...), byte([]int{0, 1, 0x80, 0xa0, 0xf6, 0xff}[c.Choose("appended", 6)]))
	case 3: // a byte removed or doubled
		i := c.Choose("position", len(good))
		if c.Bool("doubled") {
			return append(append(append([]byte{}, good[:i+1]...), good[i]), good[i+1:]...)
		}
		return append(append([]byte{}, good[:i]...), good[i+1:]...)
	}
	// two adjacent bytes
	b := append([]byte{}, good...)
	i := c.Choose("position", len(good)-1)
	alpha := []byte{0, 1, 2, 3, 0x40, 0x58, 0x5f, 0x80, 0x81, 0x82, 0x83, 0x9f, 0xa0, 0xf6, 0xf7, 0xff}
	if !wide {
		alpha = []byte{0, 2, 0x58, 0x80, 0x82, 0x9f, 0xf6, 0xff}
	}
	b[i], b[i+1] = alpha[c.Choose("first", len(alpha))], alpha[c.Choose("second", len(alpha))]
	return b
}

func mustCbor(v any) []byte { return must(cbor.Marshal(v)) }

// boxed assembles containers with chosen parts.
func boxed(c *explore.Ctx, kindKey string, elem func(i int) []byte, other []byte) []byte {
	curveT := []int{1, 0, 2, -1, 1 << 40}[c.Choose("curve", 5)]
	kind := []int{1, 2, 0, 3, -1}[c.Choose("kind", 5)]
	n := c.Choose("elements", 5)
	l := make([]any, n)
	for i := range l {
		l[i] = elem(i)
	}
	if n > 0 {
		e := elem(n - 1)
		bad := func(x any) { l[n-1] = x }
		switch c.Choose("last element", 12) {
		case 1:
			bad(nil)
		case 2:
			bad(e[:len(e)-1])
		case 3:
			bad(append(append([]byte{}, e...), 0))
		case 4:
			bad([]byte{})
		case 5:
			x := append([]byte{}, e...)
			x[0] = 2
			bad(x)
		case 6:
			bad(other)
		case 7:
			bad(e[1:])
		case 8:
			bad(string(e))
		case 9:
			bad(7)
		case 10:
			bad([]any{e})
		case 11:
			x := append([]byte{}, e...)
			x[0] = 0
			bad(x)
		}
	}
	m := map[string]any{"CurveType": curveT, kindKey: kind}
	switch c.Choose("message", 7) {
	case 0:
		m["Message"] = l
	case 1:
		m["Message"] = nil
	case 2: // missing
	case 3:
		m["Message"] = mustCbor(l)
	case 4:
		m["Message"] = map[int]any{0: l}
	case 5:
		m["Message"] = "x"
	case 6:
		m["Message"] = l
		switch c.Choose("missing key", 3) {
		case 0:
			delete(m, "CurveType")
		case 1:
			delete(m, kindKey)
		case 2:
			m["extra"] = 5
		}
	}
	return mustCbor(m)
}

func c23Spaces(e Env) []*explore.Space {
	sa := scalarAlphabet(e)
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "openings-round-trip", Bound: fmt.Sprintf("openings of both kinds over %d boundary scalars, held by value and by reference, used in every place an opening can be", len(sa)),
		Run: func(c *explore.Ctx) {
			vals := []*big.Int{sa[c.Choose("value", len(sa))]}
			if c.Bool("pedersen") {
				vals = append(vals, sa[c.Choose("mask", len(sa))])
			}
			o := fx.Opening(vals)
			if c.Bool("by reference") {
				o = fx.OpeningPtr(vals)
			}
			c.Key(hexes(vals))
			what := fmt.Sprintf("opening %s", hexes(vals))
			b, err := o.Serialize()
			c.Check(err == nil, "serialize", "%s: %v", what, err)
			w := refOpening(b)
			c.Check(w != nil && hexes(w) == hexes(vals), "encoding", "%s encodes as %x", what, b)
			d, err := poly.Commitment.Deserialize(b)
			c.Check(err == nil, "round trip", "%s: %v", what, err)
			c.Check(fx.OpEq(d, vals) && fx.OpEq(o, vals), "round trip", "%s becomes %s", what, fx.ShowOp(d))
			b2, err := d.Serialize()
			c.Check(err == nil && bytes.Equal(b, b2), "round trip", "%s: the copy encodes as %x, the original as %x", what, b2, b)
			// through opening bytes
			for _, x := range []poly.CommitmentOpening{o, d} {
				ob := x.ToCommitmentOpeningBytes()
				c.Check(ob != nil && fx.OpEq(ob.ToCommitmentOpening(), vals), "opening bytes", "%s: opening bytes give %s", what, fx.ShowOp(ob.ToCommitmentOpening()))
				c.Check(x.ToString() == o.ToString(), "text", "%s: text %s and %s", what, x.ToString(), o.ToString())
				none := fx.Opening([]*big.Int{ref.I(0), ref.I(0)}[:len(vals)])
				c.Check(x.ToString() == none.ToString(), "secret in text", "%s: text %s", what, x.ToString())
				s, err := dealings.Secret.From(ob, nil)
				c.Check(err == nil, "secret", "%s: %v", what, err)
				if len(vals) == 1 {
					r, ok := s.(*dealings.ReshareOfUnmaskedSecret)
					c.Check(ok && fx.SEq(r.S1, vals[0]), "secret", "%s gives %T", what, s)
				} else {
					r, ok := s.(*dealings.ReshareOfMaskedSecret)
					c.Check(ok && fx.SEq(r.S1, vals[0]) && fx.SEq(r.S2, vals[1]), "secret", "%s gives %T", what, s)
				}
			}
			c.Eval(8)
		},
	}, &explore.Space{
		Name: "opening-uses", Bound: "an original and a deserialized opening of both kinds in: checking against its commitment, combining, recovering a share, computing a signature share input",
		Run: func(c *explore.Ctx) { openingUses(c, e) },
	}, &explore.Space{
		Name: "secret-from-openings", Bound: "every ordered pair of opening bytes out of {nil, simple, pedersen} over boundary values",
		Run: func(c *explore.Ctx) { secretFrom(c, e, sa) },
	}, &explore.Space{
		Name: "malformed-openings", Bound: "every truncation, single-byte change, appended, removed or doubled byte and pairs of adjacent structural bytes of encoded openings of both kinds",
		Run: func(c *explore.Ctx) {
			vals := []*big.Int{randScalar(e, "enc", 0)}
			if c.Bool("pedersen") {
				vals = append(vals, ref.Neg(ref.I(1)))
			}
			good := must(fx.Opening(vals).Serialize())
			b := edited(c, good, true)
			c.Key(b)
			checkOpeningBytes(c, "edited opening", b)
		},
	}, &explore.Space{
		Name: "assembled-openings", Bound: "all containers over 5 curve types x 5 kinds x 0..4 elements x 12 forms of the last element x 9 forms of the message",
		Run: func(c *explore.Ctx) {
			b := boxed(c, "CommitType", func(i int) []byte { return append([]byte{1}, ref.Bytes32(randScalar(e, "enc", i))...) },
				append([]byte{1}, ref.N.FillBytes(make([]byte, 32))...))
			c.Key(b)
			checkOpeningBytes(c, "assembled opening", b)
		},
	})
	pa := pointAlphabet(e)
	sp = append(sp, &explore.Space{
		Name: "commitments-round-trip", Bound: fmt.Sprintf("commitments of 1..3 points out of %d in both kinds; also wrapped as transcript commitments; lengths up to 30 and around 256 (the CBOR length boundaries)", len(pa)),
		Run: func(c *explore.Ctx) {
			ped := c.Bool("pedersen")
			var cm poly.PolynomialCommitment
			var ps []ref.P
			var name string
			if c.Bool("long") {
				n := []int{4, 22, 23, 24, 25, 30, 254, 255, 256, 257}[c.Choose("points", 10)]
				for i := 0; i < n; i++ {
					ps = append(ps, ref.MulG(ref.I(int64(i%40))))
				}
				cm, name = fx.Commitment(ped, ps), fmt.Sprintf("%d points pedersen=%v", n, ped)
			} else {
				cm, ps, name = chooseCommitment(c, ped, c.Choose("points", Pick(e, 2, 3))+1, pa)
			}
			c.Key(name)
			b, err := cm.Serialize()
			c.Check(err == nil, "serialize", "%s: %v", name, err)
			p2, ps2, ok := refCommitment(b)
			c.Check(ok && p2 == ped && showPoints(p2, ps2) == showPoints(ped, ps), "encoding", "%s encodes as %x", name, b)
			observeCommitment(c, name+" after encoding", cm, ped, ps)
			d, err := poly.VerifDeserializeCommitment(b)
			c.Check(err == nil, "round trip", "%s: %v", name, err)
			observeCommitment(c, name+" after a round trip", d, ped, ps)
			c.Check(cm.Equal(d) == 1 && d.Equal(cm) == 1, "round trip", "%s: the copy is not equal", name)
			for i, w := range []dealings.CombinedCommitment{&dealings.SummationCommitment{PolynomialCommitment: cm}, &dealings.InterpolationCommitment{PolynomialCommitment: cm}} {
				wb, err := w.Serialize()
				c.Check(err == nil && bytes.Equal(wb, b), "wrapped", "%s: transcript commitment %d encodes as %x", name, i, wb)
			}
			c.Eval(4)
		},
	}, &explore.Space{
		Name: "malformed-commitments", Bound: "every truncation, single-byte change, appended, removed or doubled byte and pairs of adjacent structural bytes of an encoded commitment of 1 and 2 points, both kinds",
		Run: func(c *explore.Ctx) {
			ps := []ref.P{ref.MulG(randScalar(e, "enc", 0)), ref.Identity()}[:1+c.Choose("points", 2)]
			good := must(fx.Commitment(c.Bool("pedersen"), ps).Serialize())
			b := edited(c, good, e.Thorough)
			c.Key(b)
			checkCommitmentBytes(c, "edited commitment", b)
		},
	}, &explore.Space{
		Name: "assembled-commitments", Bound: "all containers over 5 curve types x 5 kinds x 0..4 elements x 12 forms of the last element x 9 forms of the message",
		Run: func(c *explore.Ctx) {
			off := ref.G.Tagged()
			off[33] ^= 1
			for {
				if _, ok := ref.DecodePoint(off[1:]); !ok {
					break
				}
				off[33]++
			}
			b := boxed(c, "CommitmentType", func(i int) []byte { return ref.MulG(ref.I(int64(i + 1))).Tagged() }, off)
			c.Key(b)
			checkCommitmentBytes(c, "assembled commitment", b)
		},
	}, &explore.Space{
		Name: "encryption-keys", Bound: fmt.Sprintf("key pairs of %d boundary secrets; every truncation, extension and single-byte change of both encodings", len(sa)),
		Run: func(c *explore.Ctx) { encryptionKeys(c, e, sa) },
	}, &explore.Space{
		Name: "transcript-comparison", Bound: "all pairs of transcripts over commitments of 1..2 points out of 4 of both kinds, summed and interpolated",
		Run: func(c *explore.Ctx) {
			few := []pointVal{pa[0], pa[1], pa[2], pa[len(pa)/2+1]}
			mk := func() (*dealings.IDkgTranscriptInternal, string) {
				ped := c.Bool("pedersen")
				cm, ps, _ := chooseCommitment(c, ped, c.Choose("points", 2)+1, few)
				var w dealings.CombinedCommitment = &dealings.InterpolationCommitment{PolynomialCommitment: cm}
				if c.Bool("summed") {
					w = &dealings.SummationCommitment{PolynomialCommitment: cm}
				}
				return &dealings.IDkgTranscriptInternal{CombinedCommitment: w}, showPoints(ped, ps)
			}
			a, an := mk()
			b, bn := mk()
			c.Key(an, bn)
			x, y := a.Compare(*b), b.Compare(*a)
			c.Check((x == 0) == (an == bn) && x == -y, "comparison", "%s and %s compare as %d and %d", an, bn, x, y)
			c.Check(fx.PEq(a.ConstantTerm(), fx.RP(a.CombinedCommitment.Points()[0])), "constant term", "%s", an)
			c.Check(fx.PEq(a.EvaluateAt(4), fx.RP(a.CombinedCommitment.EvaluateAt(4))), "evaluation", "%s", an)
		},
	})
	return sp
}

func secretFrom(c *explore.Ctx, e Env, sa []*big.Int) {
	mk := func(label string) (poly.CommitmentOpeningBytes, []*big.Int) {
		k := c.Choose(label, 3)
		var v []*big.Int
		for i := 0; i < k; i++ {
			v = append(v, sa[c.Choose("value", 5)])
		}
		if k == 0 {
			return nil, nil
		}
		return fx.Opening(v).ToCommitmentOpeningBytes(), v
	}
	a, av := mk("first")
	b, bv := mk("second")
	s, err := dealings.Secret.From(a, b)
	c.Key(hexes(av), hexes(bv))
	what := fmt.Sprintf("secret from %s and %s", hexes(av), hexes(bv))
	ok := false
	switch {
	case len(av) == 1 && len(bv) == 0:
		r, is := s.(*dealings.ReshareOfUnmaskedSecret)
		ok = err == nil && is && fx.SEq(r.S1, av[0])
	case len(av) == 2 && len(bv) == 0:
		r, is := s.(*dealings.ReshareOfMaskedSecret)
		ok = err == nil && is && fx.SEq(r.S1, av[0]) && fx.SEq(r.S2, av[1])
	case len(av) == 1 && len(bv) == 2:
		r, is := s.(*dealings.UnmaskedTimesMaskedSecret)
		ok = err == nil && is && fx.SEq(r.Left, av[0]) && fx.SEq(r.Right[0], bv[0]) && fx.SEq(r.Right[1], bv[1])
	default:
		ok = err != nil
	}
	c.Check(ok, "secret", "%s: %T %s", what, s, errStr(err))
}

// openingUses puts the original and the deserialized opening to the same use.
func openingUses(c *explore.Ctx, e Env) {
	ped := c.Bool("pedersen")
	t := c.Choose("coefficients", 3) + 1
	mk := func(l string) ref.Poly {
		p := make(ref.Poly, t)
		for i := range p {
			p[i] = randScalar(e, l, i)
		}
		return p
	}
	v := mk("uses v")
	var m ref.Poly
	if ped {
		m = mk("uses m")
	}
	ps := ref.Commit(v, m, t)
	cm := fx.Commitment(ped, ps)
	open := func(i int) []*big.Int {
		o := []*big.Int{v.At(i)}
		if ped {
			o = append(o, m.At(i))
		}
		return o
	}
	forms := c.Choose("form", 3)
	form := func(i int) poly.CommitmentOpening {
		switch forms {
		case 0:
			return fx.Opening(open(i))
		case 1:
			return must(poly.Commitment.Deserialize(must(fx.Opening(open(i)).Serialize())))
		}
		return fx.Opening(open(i)).ToCommitmentOpeningBytes().ToCommitmentOpening()
	}
	c.Key(ped, t, forms)
	switch use := c.Choose("use", 3); use {
	case 0:
		for i := 0; i < 4; i++ {
			c.Check(cm.CheckOpening(common.NodeIndex(i), form(i)), "use", "opening %d in form %d is not accepted by its commitment", i, forms)
			c.Check(t == 1 || !cm.CheckOpening(common.NodeIndex(i+1), form(i)), "use", "opening %d in form %d is accepted elsewhere", i, forms)
		}
	case 1: // recover the share of node 0
		om := map[int]poly.CommitmentOpening{}
		for i := 1; i <= t; i++ {
			om[i] = form(i)
		}
		r, err := dealings.ReconstructShareFromOpenings(&dealings.IDkgDealingInternal{Commitment: cm}, fx.OpenMap(om), 0)
		c.Check(err == nil && fx.OpEq(r, open(0)), "use", "recovery with openings in form %d: %v", forms, err)
	case 2: // combine t dealings into an opening
		xs := ref.LagrangeAt(ref.I(0), ref.Nodes([]int{0, 2}))
		want := []*big.Int{ref.Add(ref.Mul(xs[0], open(0)[0]), ref.Mul(xs[1], open(2)[0]))}
		wp := []ref.P{ref.MulG(want[0])}
		if ped {
			want = append(want, ref.Add(ref.Mul(xs[0], open(0)[1]), ref.Mul(xs[1], open(2)[1])))
			wp[0] = ref.Pedersen(want[0], want[1])
		}
		tr := &dealings.InterpolationCommitment{PolynomialCommitment: fx.Commitment(ped, wp)}
		got, err := dealings.CommitmentOpening.CombineOpenings([]common.NodeIndex{0, 2}, []poly.CommitmentOpening{form(0), form(2)}, tr, 5, fx.K)
		c.Check(err == nil && fx.OpEq(got, want), "use", "interpolating openings in form %d: %v", forms, err)
		if ped {
			sum := []*big.Int{ref.Add(open(0)[0], open(2)[0]), ref.Add(open(0)[1], open(2)[1])}
			tr := &dealings.SummationCommitment{PolynomialCommitment: fx.Commitment(true, []ref.P{ref.Pedersen(sum[0], sum[1])})}
			got, err := dealings.CommitmentOpening.CombineOpenings([]common.NodeIndex{0, 2}, []poly.CommitmentOpening{form(0), form(2)}, tr, 5, fx.K)
			c.Check(err == nil && fx.OpEq(got, sum), "use", "summing openings in form %d: %v", forms, err)
		}
	}
}

func encryptionKeys(c *explore.Ctx, e Env, sa []*big.Int) {
	edit := func(good []byte) []byte {
		switch c.Choose("edit", 4) {
		case 0:
			return good[:c.Choose("length", len(good))]
		case 1:
			b := append([]byte{}, good...)
			b[c.Choose("position", len(good))] ^= byte(1 + c.Choose("difference", 255))
			return b
		case 2:
			return append(append([]byte{}, good...), 0)
		}
		return append([]byte{0}, good...)
	}
	switch c.Choose("family", 5) {
	case 0:
		d := sa[c.Choose("secret", len(sa))]
		p := ref.MulG(d)
		sk, err := mega.PrivateKey.Deserialize(fx.K, ref.Bytes32(d))
		c.Check(err == nil, "private key", "%x: %v", d, err)
		c.Check(bytes.Equal(sk.Serialize(), ref.Bytes32(d)) && fx.SEq(sk.SecretScalar(), d) && sk.CurveType() == fx.K, "private key", "%x becomes %x", d, sk.Serialize())
		pk := sk.PublicKey()
		c.Check(bytes.Equal(pk.Serialize(), p.Bytes()) && fx.PEq(pk.PublicPoint(), p) && pk.CurveType() == fx.K, "public key", "public key of %x is %x", d, pk.Serialize())
		pk2, err := mega.PublicKey.Deserialize(fx.K, pk.Serialize())
		c.Check(err == nil && bytes.Equal(pk2.Serialize(), p.Bytes()), "public key", "round trip of %x: %v", p.Bytes(), err)
		c.Check(bytes.Equal(mega.NewMEGaPrivateKey(fx.S(d)).Serialize(), ref.Bytes32(d)) && bytes.Equal(mega.NewMEGaPublicKey(fx.Rebase(fx.Pt(p))).Serialize(), p.Bytes()), "constructors", "%x", d)
		c.Key("pair", d)
	case 1:
		b := edit(ref.MulG(randScalar(e, "key", 0)).Bytes())
		c.Key(b)
		p, ok := ref.DecodePoint(b)
		pk, err := mega.PublicKey.Deserialize(fx.K, b)
		c.Check((err == nil) == ok && (mega.VerifyMegaPublicKey(fx.K, b) == nil) == ok, "acceptance", "public key %x: %s, want accepted=%v", b, errStr(err), ok)
		if ok {
			c.Check(bytes.Equal(pk.Serialize(), p.Bytes()), "public key", "%x becomes %x", b, pk.Serialize())
		} else {
			c.Check(pk == nil, "value with error", "a key is returned for %x", b)
		}
	case 2:
		base := []*big.Int{randScalar(e, "key", 0), ref.Neg(ref.I(1))}[c.Choose("base", 2)]
		b := edit(ref.Bytes32(base))
		c.Key(b)
		v := new(big.Int).SetBytes(b)
		ok := len(b) == 32 && v.Cmp(ref.N) < 0
		sk, err := mega.PrivateKey.Deserialize(fx.K, b)
		c.Check((err == nil) == ok, "acceptance", "private key %x: %s, want accepted=%v", b, errStr(err), ok)
		if ok {
			c.Check(bytes.Equal(sk.Serialize(), b), "private key", "%x becomes %x", b, sk.Serialize())
		} else {
			c.Check(sk == nil, "value with error", "a key is returned for %x", b)
		}
	case 3:
		label := fmt.Sprint("key pair ", c.Choose("seed", 16))
		ls, rs := fx.LSeed(e.Label(label))
		pk, sk, err := mega.GenKeypair(fx.K, ls)
		d := rs.Scalar()
		c.Check(err == nil && bytes.Equal(sk.Serialize(), ref.Bytes32(d)) && bytes.Equal(pk.Serialize(), ref.MulG(d).Bytes()), "generated pair", "%x %x, want secret %x", sk.Serialize(), pk.Serialize(), d)
	case 4: // keys beyond the field and off the curve
		b := append([]byte{2 + byte(c.Choose("parity", 2))}, ref.Bytes32(fieldAlphabet(e)[c.Choose("x", len(fieldAlphabet(e)))])...)
		if c.Bool("plus field size") {
			v := new(big.Int).Add(new(big.Int).SetBytes(b[1:]), ref.FP)
			if v.BitLen() > 256 {
				c.Skip()
			}
			copy(b[1:], v.FillBytes(make([]byte, 32)))
		}
		c.Key(b)
		_, ok := ref.DecodePoint(b)
		_, err := mega.PublicKey.Deserialize(fx.K, b)
		c.Check((err == nil) == ok, "acceptance", "public key %x: %s, want accepted=%v", b, errStr(err), ok)
	}
}
