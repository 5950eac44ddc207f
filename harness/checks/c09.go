package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/btcsuite/btcd/btcec"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C09",
		Level: "fault_enumeration",
		Rule: "one execution verifies one pair (r, s) for one request and pair of transcripts; the verdict is compared with textbook ECDSA (and btcec where it applies) plus the rules on range, " +
			"low s and the presignature; distinct means distinct (signature, request, transcripts)",
		Assume: []string{"the key and presignature are not the identity"},
		Spaces: c09Spaces,
	})
}

// verifyLib verifies with the library.
func (q *quintuple) verifyLib(c *explore.Ctx, rr, s *big.Int, r ref.Request) error {
	h, okh := fx.Canary(r.Hash)
	rn, okr := fx.Canary(r.Randomness)
	sig := sign.ThresholdEcdsaCombinedSigInternal{R: fx.S(rr), S: fx.S(s)}
	var err error
	for round := 0; round < 2; round++ {
		e := sig.Verify(fx.Path(r.Path), h, rn, q.key.transcript(), q.kappa.transcript(), fx.K)
		c.Check(round == 0 || (e == nil) == (err == nil), "unstable", "verifying twice gives %s and %s", errStr(err), errStr(e))
		err = e
	}
	c.Check(okh() && okr(), "input changed", "verification changes the hash or the randomness")
	c.Check(fx.SEq(sig.R, rr) && fx.SEq(sig.S, s), "input changed", "verification changes the signature")
	return err
}

// btcVerify is a third opinion.
func btcVerify(pk ref.P, hash []byte, r, s *big.Int) bool {
	k := &btcec.PublicKey{Curve: btcec.S256(), X: pk.X, Y: pk.Y}
	return (&btcec.Signature{R: r, S: s}).Verify(hash, k)
}

func (q *quintuple) checkSignature(c *explore.Ctx, what string, rr, s *big.Int, r ref.Request) {
	want := q.expectSignature(r, rr, s)
	err := q.verifyLib(c, rr, s, r)
	c.Check((err == nil) == want, "verdict", "%s: %s, want accepted=%v (r %x, s %x)", what, errStr(err), want, rr, s)
	c.Outcome(want)
	c.Eval(1)
}

func c09Spaces(e Env) []*explore.Space {
	var sp []*explore.Space
	rs := requests(e)
	sa := scalarAlphabet(e)
	sp = append(sp, &explore.Space{
		Name:  "honest",
		Bound: fmt.Sprintf("%d requests (hash lengths 0..64, boundary hashes, randomness 0..300 bytes, paths of 0..4 indices) x thresholds 1..3: the signature is accepted, its high-s twin is not, and both ECDSA oracles agree", len(rs)),
		Run: func(c *explore.Ctx) {
			r := rs[c.Choose("request", len(rs))]
			t := 1 + c.Choose("threshold", 3)
			q := cachedQuintuple(e, "sign", t)
			rr, s, high := q.refSignature(r)
			_, tweak, _, _ := r.Rho(q.key.com[0], q.kappa.com[0])
			pk := q.key.com[0].Add(ref.MulG(tweak))
			if !ref.VerifyECDSA(pk, r.Hash, rr, s) || len(r.Hash) > 0 && !btcVerify(pk, r.Hash, rr, s) {
				panic("harness: the reference signature is not valid")
			}
			c.Key(showRequest(r), t)
			q.checkSignature(c, showRequest(r), rr, s, r)
			q.checkSignature(c, showRequest(r)+" with high s", rr, ref.Neg(s), r)
			c.Outcome(high)
			// two parties with the key but another presignature make an ECDSA
			// signature which is valid but not this request's
			k := randScalar(e, "another nonce")
			r2 := ref.Mod(ref.MulG(k).X)
			s2 := ref.LowS(ref.Mul(ref.Inv(k), ref.Add(ref.HashToInt(r.Hash), ref.Mul(r2, ref.Add(q.key.v[0], tweak)))))
			if !ref.VerifyECDSA(pk, r.Hash, r2, s2) {
				panic("harness: the second signature is not valid")
			}
			q.checkSignature(c, showRequest(r)+" with another nonce", r2, s2, r)
			q.checkSignature(c, showRequest(r)+" with the s of another nonce", rr, s2, r)
			q.checkSignature(c, showRequest(r)+" with the r of another nonce", r2, s, r)
		},
	}, &explore.Space{
		Name:   "signature-edits",
		Bound:  "8 requests; every combination of at most 2 deviations of r and s: replaced by each boundary scalar, by each of 8 edits, by the other, the hash, the key's or presignature's coordinate, exchanged",
		MaxDev: 2,
		Run: func(c *explore.Ctx) {
			r := rs[len(rs)-1-c.Choose("request", Pick(e, 6, 30))]
			q := cachedQuintuple(e, "sign", 2)
			rr, s, _ := q.refSignature(r)
			rho, tweak, rnd, _ := r.Rho(q.key.com[0], q.kappa.com[0])
			pk := q.key.com[0].Add(ref.MulG(tweak))
			special := []*big.Int{rr, s, ref.HashToInt(r.Hash), ref.Mod(pk.X), ref.Mod(q.key.com[0].X), ref.Mod(q.kappa.com[0].X), rho, tweak, rnd, ref.Inv(s), ref.Inv(rr),
				ref.Mul(s, ref.Inv(ref.I(2))), ref.Mul(rr, s)}
			edit := func(name string, v *big.Int) *big.Int {
				x := c.Dev(name, 1+scalarEdits+len(sa)+len(special))
				switch {
				case x == 0:
				case x <= scalarEdits:
					_, v = scalarEdit(x-1, v)
				case x <= scalarEdits+len(sa):
					v = sa[x-1-scalarEdits]
				default:
					v = special[x-1-scalarEdits-len(sa)]
				}
				return v
			}
			r2, s2 := edit("r", rr), edit("s", s)
			if c.Dev("exchange", 2) == 1 {
				r2, s2 = s2, r2
			}
			c.Key(showRequest(r), r2, s2)
			q.checkSignature(c, "edited signature", r2, s2, r)
		},
	}, &explore.Space{
		Name:  "request-edits",
		Bound: "5 requests; every single change of hash, randomness and path, in both directions, with s as it was or negated",
		Run: func(c *explore.Ctx) {
			bases := []ref.Request{rs[0], {}, rs[len(rs)-1], rs[len(rs)-2], {Hash: make([]byte, 64), Randomness: make([]byte, 300), Path: [][]byte{make([]byte, 40)}}}
			r := bases[c.Choose("request", len(bases))]
			ed := requestEdits(r)
			x := ed[c.Choose("edit", len(ed))]
			q := cachedQuintuple(e, "sign", 2)
			from, to := r, x.r
			if c.Bool("reverse") {
				from, to = to, from
			}
			rr, s, _ := q.refSignature(from)
			if c.Bool("negated") {
				s = ref.Neg(s)
			}
			// with r replaced by the one the new request calls for
			if c.Bool("r of the new request") {
				rr, _, _, _ = to.Rho(q.key.com[0], q.kappa.com[0])
			}
			c.Key(showRequest(from), showRequest(to), rr, s)
			q.checkSignature(c, fmt.Sprintf("signature for %s verified with %s", showRequest(from), x.name), rr, s, to)
		},
	}, &explore.Space{
		Name:   "transcript-edits",
		Bound:  "thresholds 1 and 2; every combination of at most 2 deviations of key and presignature transcripts (9 edits each), exchanged transcripts and (r, s) recomputed for the edited presignature",
		MaxDev: 2,
		Run: func(c *explore.Ctx) {
			t := 1 + c.Choose("threshold", 2)
			q := *cachedQuintuple(e, "sign", t)
			o := cachedQuintuple(e, "other", t)
			r := rs[c.Choose("request", 2)*7]
			rr, s, _ := q.refSignature(r)
			what := ""
			if x := c.Dev("key", transcriptEdits+1); x > 0 {
				var nm string
				nm, q.key = transcriptEdit(x-1, q.key, o.key)
				what += " key " + nm
			}
			if x := c.Dev("presignature", transcriptEdits+1); x > 0 {
				var nm string
				nm, q.kappa = transcriptEdit(x-1, q.kappa, o.kappa)
				what += " presignature " + nm
			}
			if c.Dev("exchange", 2) == 1 {
				q.key, q.kappa = q.kappa, q.key
				what += " exchanged"
			}
			switch c.Dev("signature", 3) {
			case 1:
				rr, _, _, _ = r.Rho(q.key.com[0], q.kappa.com[0])
				what += " with the right r"
			case 2:
				s = ref.Neg(s)
				what += " with negated s"
			}
			c.Key(t, what)
			q.checkSignature(c, fmt.Sprintf("threshold %d:%s", t, what), rr, s, r)
		},
	}, &explore.Space{
		Name:  "small-keys",
		Bound: "every pair of key and presignature secrets from the boundary alphabet (where the shifted key and nonce do not vanish), 3 requests: the signature is accepted and 6 others are not",
		Run: func(c *explore.Ctx) {
			q := *cachedQuintuple(e, "sign", 1)
			set := func(s *sharing, v *big.Int) *sharing {
				return &sharing{v: ref.Poly{v}, com: []ref.P{ref.MulG(v)}}
			}
			x := sa[1+c.Choose("key", len(sa)-1)]
			k := sa[1+c.Choose("presignature", len(sa)-1)]
			q.key, q.kappa = set(q.key, x), set(q.kappa, k)
			r := rs[[]int{0, 9, 24}[c.Choose("request", 3)]]
			rr, s, _ := q.refSignature(r)
			c.Key(x, k, showRequest(r))
			what := fmt.Sprintf("key %x, presignature %x", x, k)
			q.checkSignature(c, what, rr, s, r)
			q.checkSignature(c, what+" negated s", rr, ref.Neg(s), r)
			q.checkSignature(c, what+" s+1", rr, ref.Add(s, ref.I(1)), r)
			q.checkSignature(c, what+" r+1", ref.Add(rr, ref.I(1)), s, r)
			q.checkSignature(c, what+" zero s", rr, ref.I(0), r)
			q.checkSignature(c, what+" zero r", ref.I(0), s, r)
		},
	}, &explore.Space{
		Name: "solved-keys", Bound: "no derivation; requests with 20 hashes and randomness, thresholds 1 and 2; keys solved so that the two terms of the verification equation cancel, coincide, or differ by the generator: the verdict for the signature and for every boundary s",
		Run: func(c *explore.Ctx) {
			r := rs[c.Choose("request", 20)]
			r.Path = nil
			h := ref.HashToInt(r.Hash)
			if h.Sign() == 0 {
				c.Skip()
			}
			t := 1 + c.Choose("threshold", 2)
			q := *cachedQuintuple(e, "sign", t)
			rho, tweak, _, _ := r.Rho(q.key.com[0], q.kappa.com[0])
			if tweak.Sign() != 0 {
				panic("harness: no derivation shifts the key")
			}
			// h + rho x = (1 + f) h
			f := []*big.Int{ref.Neg(ref.I(1)), ref.I(1), ref.I(2), ref.Neg(ref.I(2))}
			x := ref.Mul(h, ref.Inv(rho))
			kind := c.Choose("key", len(f)+2)
			switch {
			case kind < len(f):
				x = ref.Mul(x, f[kind])
			case kind == len(f):
				x = ref.Add(ref.Neg(x), ref.Inv(rho))
			default:
				x = ref.Add(x, ref.Inv(rho))
			}
			if x.Sign() == 0 {
				c.Skip()
			}
			v := append(ref.Poly{}, q.key.v...)
			v[0] = x
			q.key = &sharing{v: v, com: ref.Commit(v, nil, t)}
			rr, s, _ := q.refSignature(r)
			if rr.Cmp(rho) != 0 || (s.Sign() == 0) != (kind == 0) {
				panic("harness: the key is not solved")
			}
			ss := append([]*big.Int{s, ref.Neg(s)}, sa...)
			s = ss[c.Choose("s", len(ss))]
			c.Key(showRequest(r), t, kind, s)
			q.checkSignature(c, fmt.Sprintf("%s, key solved in way %d", showRequest(r), kind), rr, s, r)
		},
	}, &explore.Space{
		Name: "conversions", Bound: "the r of points whose x is at each of the 40 least and greatest coordinates and 40 around the group order, both signs, and of multiples of the generators; the integer of hashes of every length 0..70 with 8 contents and boundary values",
		Run: func(c *explore.Ctx) {
			if c.Bool("hash") {
				n := c.Choose("length", 71)
				h := make([]byte, n)
				switch k := c.Choose("content", 9); k {
				case 0:
				case 1, 2, 3:
					for i := range h {
						h[i] = []byte{255, 1, 128}[k-1]
					}
				case 4, 5, 6, 7: // the order and its neighbours in front
					copy(h, ref.Bytes32(new(big.Int).Add(ref.N, ref.I(int64(k-6)))))
				case 8:
					for i := range h {
						h[i] = byte(i*7 + 1)
					}
				}
				c.Key("hash", h)
				in, intact := fx.Canary(h)
				got, err := sign.ConvertHashToInteger(in, fx.K)
				c.Check(err == nil && intact(), "hash", "hash %x: %s", h, errStr(err))
				observeScalar(c, fmt.Sprintf("integer of %x", h), got, ref.HashToInt(h))
				return
			}
			var p ref.P
			if c.Bool("multiple") {
				p = []ref.P{ref.G, ref.H}[c.Choose("generator", 2)].Mul(sa[1+c.Choose("scalar", len(sa)-1)])
			} else {
				d := ref.I(int64(c.Choose("offset", 40)))
				x := []*big.Int{d, new(big.Int).Sub(new(big.Int).Sub(ref.FP, ref.I(1)), d), new(big.Int).Add(ref.N, d), new(big.Int).Sub(ref.N, d)}[c.Choose("from", 4)]
				rhs := new(big.Int).Exp(x, ref.I(3), ref.FP)
				y, ok := ref.FSqrt(bmod(ref.FP, rhs.Add(rhs, ref.I(7))))
				if !ok {
					c.Skip()
				}
				if c.Bool("odd") {
					y = bmod(ref.FP, new(big.Int).Neg(y))
				}
				p = ref.P{X: x, Y: y}
			}
			c.Key("r", p.X, p.Y)
			pt := fx.Pt(p)
			got, err := sign.EcdsaConversion(pt)
			c.Check(err == nil, "r", "r of %x: %s", p.Bytes(), errStr(err))
			observeScalar(c, fmt.Sprintf("r of %x", p.Bytes()), got, ref.Mod(p.X))
			observePoint(c, "the point", pt, p)
		},
	})
	return sp
}
