package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C24",
		Level: "exploration",
		Rule: "one execution has the library and an independent reference implementation of the published algorithm make the same objects from the same seeds and compares every part of them; " +
			"distinct means distinct inputs",
		Assume: []string{"the reference follows the published algorithm; it is anchored by the published and the repository's own known answers (space known-answers)"},
		Spaces: c24Spaces,
	})
}

func unhex(s string) []byte { return must(hex.DecodeString(s)) }

// knownAnswers are fixed values of the published algorithm; reference and
// library must both give them.
func knownAnswers() []struct {
	name, want string
	ref, lib   func() []byte
} {
	v42 := bytes.Repeat([]byte{42}, 32)
	rngOut := func(s ref.Seed) []byte { return s.Rng().Next(32) }
	libOut := func(s *seed.Seed) []byte {
		b := make([]byte, 32)
		s.Rng().FillUint8(b)
		return b
	}
	oracle := func() (*ref.RO, *ro.RandomOracle) {
		sd := bytes.Repeat([]byte{0x42}, 32)
		s := ref.SeedFromBytes(sd).Rng().Scalar()
		r := ref.NewRO("ic-test-domain-sep").Point("pt1", ref.MulG(s)).Int("i1", 42).Bytes("v1", bytes.Repeat([]byte{42}, 42)).Scalar("s1", s).Int("round", 1)
		l := ro.NewRandomOracle("ic-test-domain-sep")
		ls := curve.Scalar.Random(fx.K, seed.FromBytes(sd).Rng())
		l.AddPoint("pt1", curve.Point.MulByG(ls))
		l.AddUint64("i1", 42)
		l.AddBytesString("v1", bytes.Repeat([]byte{42}, 42))
		l.AddScalar("s1", ls)
		l.AddUint64("round", 1)
		return r, l
	}
	com := func(ped bool, n int) (func() []byte, func() []byte) {
		key := bytes.Repeat([]byte{42}, n)
		return func() []byte {
				rng := ref.SeedFromBytes(key).Rng()
				v, m := make(ref.Poly, n), ref.Poly(nil)
				for i := range v {
					v[i] = rng.Scalar()
				}
				tag := byte('S')
				if ped {
					tag = 'P'
					m = make(ref.Poly, n)
					for i := range m {
						m[i] = rng.Scalar()
					}
				}
				out := []byte{tag, 1}
				for _, p := range ref.Commit(v, m, n) {
					out = append(out, p.Bytes()...)
				}
				return out
			}, func() []byte {
				rng := seed.FromBytes(key).Rng()
				p := poly.Poly.Random(fx.K, n, rng)
				if !ped {
					return must(poly.SimpleCM.Create(p, n)).StableRepresentation()
				}
				return must(poly.PedersenCM.Create(p, poly.Poly.Random(fx.K, n, rng), n)).StableRepresentation()
			}
	}
	type row = struct {
		name, want string
		ref, lib   func() []byte
	}
	rows := []row{
		{"seed from bytes", "21b03e2c906a3c20d8159b65a459991238fd3bfb8a36c0af904cd1b12a109853",
			func() []byte { return rngOut(ref.SeedFromBytes(v42)) }, func() []byte { return libOut(seed.FromBytes(v42)) }},
		{"derived seed", "6f3377835641b9ea865e077ae3d09806fa7cd77af4ad7a6674400d8e0683517a",
			func() []byte { return rngOut(ref.SeedFromBytes(v42).Derive("label1")) }, func() []byte { return libOut(seed.FromBytes(v42).Derive("label1")) }},
		{"seed derived twice", "545e10f21a984c7f33a03ffb1be596ae967f7b397fd086d76ccf71b3f2a43ef3",
			func() []byte { return rngOut(ref.SeedFromBytes(v42).Derive("label1").Derive("label2")) },
			func() []byte { return libOut(seed.FromBytes(v42).Derive("label1").Derive("label2")) }},
		{"seed from a generator", "2e7af894bb91c48e2b72be9627dbc960d7800ef7569c8f6f0f3d9873c7337c9a",
			func() []byte {
				return rngOut(ref.NewSeed(ref.SeedFromBytes(v42).Rng().Next(32), "ic-crypto-seed-from-rng"))
			},
			func() []byte { return libOut(seed.FromRng(seed.FromBytes(v42).Rng())) }},
		{"oracle scalars", "e1cc3546518665d7321cd5b5aa7cbae2ae9d8bad3a2f28b495ac3d3af139b460d46b5ef6fafdaf2a1e50f7b979f1fd31e058e9c2ab69115c4f2c15077ae94969",
			func() []byte {
				r, _ := oracle()
				s := r.Scalars(2)
				return append(ref.Bytes32(s[0]), ref.Bytes32(s[1])...)
			}, func() []byte {
				_, l := oracle()
				s := must(l.OutputScalars(fx.K, 2))
				return append(s[0].Serialize(), s[1].Serialize()...)
			}},
		{"oracle bytes", "c569bf3e900df5d5e61fdf3b9d798d3089bf9dfd875e8735cb99aef2e5a865f2eb44fb6f363730a4b2dc",
			func() []byte {
				return ref.NewRO("ic-test-domain-sep-3").Scalar("c2", new(big.Int).SetBytes(unhex("f35e7f0a649f8c8e92084d04d40cd13cb82e9e2ebc3aabb5bd88c04ce2f5ebe9"))).Int("round", 3).OutBytes(42)
			}, func() []byte {
				l := ro.NewRandomOracle("ic-test-domain-sep-3")
				l.AddScalar("c2", must(curve.Scalar.Deserialize(fx.K, unhex("f35e7f0a649f8c8e92084d04d40cd13cb82e9e2ebc3aabb5bd88c04ce2f5ebe9"))))
				l.AddUint64("round", 3)
				return must(l.OutputByteString(42))
			}},
		{"hash to scalar", "3670f931a6cbff777594bf1488812b63895dfe5df9814584dfd231f69a66541a",
			func() []byte {
				return ref.Bytes32(ref.HashToScalars(1, []byte("known answer test input"), []byte("domain sep"))[0])
			},
			func() []byte {
				return must(curve.Scalar.HashToScalar(fx.K, []byte("known answer test input"), []byte("domain sep"))).Serialize()
			}},
		{"hash to curve abc", "3377e01eab42db296b512293120c6cee72b6ecf9f9205760bd9ff11fb3cb2c4b7f95890f33efebd1044d382a01b1bee0900fb6116f94688d487c6c7b9c8371f6",
			func() []byte { return ref.HashToCurve([]byte("abc"), []byte(h2cDST)).Uncompressed()[1:] },
			func() []byte {
				return must(curve.Point.HashToPoint(fx.K, []byte("abc"), []byte(h2cDST))).SerializeUncompressed()[1:]
			}},
		{"key pair", "078af152fb1edc2488a6d414ac13e76de66904648c585dc5f5032b3c022716cd027e4c1145be85c1d62c24be6ff81f837a1c63d4051071233569b55fb410da4ebd",
			func() []byte {
				s := ref.SeedFromBytes(bytes.Repeat([]byte{0x42}, 32)).Scalar()
				return append(ref.Bytes32(s), ref.MulG(s).Bytes()...)
			}, func() []byte {
				pk, sk, _ := mega.GenKeypair(fx.K, seed.FromBytes(bytes.Repeat([]byte{0x42}, 32)))
				return append(sk.Serialize(), pk.Serialize()...)
			}},
	}
	for _, x := range []struct {
		ped  bool
		n    int
		want string
	}{{false, 1, "53010269a513d6375661fb245a5b66206a85671568178e0608b4585bee50542be4999a"},
		{false, 2, "5301034af5f78220f96e265d9c93af4463b7b91a2dc1ef1db105913cb85024c697f79c036ac66cf30781414b2cb7e4e5ee13885e3d6c8049f2cf623f2d24f37de1d08432"},
		{true, 1, "500103e4febce7716f1f46b4c3ce26332c71ac013d901bf214bcf04a02c331ac9df8fb"},
		{true, 2, "500103dcd8d3bf27056abab419a773e1eb8f066968a427af43148595b105d2875b8804036bcc68f6a1547bdc684a95e8dde462891e130fd35bf79911e0f503a6469cb08f"}} {
		r, l := com(x.ped, x.n)
		rows = append(rows, row{fmt.Sprintf("commitment masked=%v to %d coefficients", x.ped, x.n), x.want, r, l})
	}
	return rows
}

const h2cDST = "QUUX-V01-CS02-with-secp256k1_XMD:SHA-256_SSWU_RO_"

// openedShare draws a sharing of boundary secrets for a dealer.
func boundarySecret(kind int, vals []*big.Int) ref.Secret {
	s := ref.Secret{Kind: kind}
	switch kind {
	case ref.KUnmasked:
		s.S = vals[:1]
	case ref.KMasked:
		s.S = vals[:2]
	case ref.KProduct:
		s.S = vals[:3]
	}
	return s
}

func c24Spaces(e Env) []*explore.Space {
	var sp []*explore.Space
	ka := knownAnswers()
	ads := adAlphabet(e)
	rs := requests(e)
	sp = append(sp, &explore.Space{
		Name:  "known-answers",
		Bound: fmt.Sprintf("%d known answers, reference and library", len(ka)),
		Run: func(c *explore.Ctx) {
			k := ka[c.Choose("answer", len(ka))]
			c.Key(k.name)
			want := unhex(k.want)
			if got := k.ref(); !bytes.Equal(got, want) {
				panic(fmt.Sprintf("harness: the reference gives %x for %s", got, k.name))
			}
			got := k.lib()
			c.Check(bytes.Equal(got, want), "known answer", "%s: %x, want %x", k.name, got, want)
			c.Eval(1)
		},
	})
	nMax := Pick(e, 3, 5)
	tMax := Pick(e, 3, 5)
	sp = append(sp, &explore.Space{
		Name: "dealing-shapes",
		Bound: fmt.Sprintf("4 kinds x 1..%d recipients x thresholds 1..%d (thresholds above the number of recipients refused alike) x 3 dealer indices x 2 seeds: polynomials, commitment, ciphertext, proof; "+
			"every share opened", nMax, tMax),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			n := 1 + c.Choose("recipients", nMax)
			t := 1 + c.Choose("threshold", tMax)
			d := []int{0, 3, 65536}[c.Choose("dealer", 3)]
			if t > n {
				c.Skip()
			}
			sd := c.Choose("seed", 2)
			o := cachedOperation(e, kind, 2, 2)
			ns := fx.Nodes(e.Label("exact", n), n)
			ad := ads[2+sd]
			what := dealName(kind, n, t)
			c.Key(kind, n, t, d, sd)
			l, r := dealOne(c, what, o, e.Label("exact", sd), t, ns, d, ad)
			for i := range ns {
				in, intact := fx.Canary(ad)
				got, err := dealings.CommitmentOpening.OpenDealing(l, in, common.NodeIndex(d), common.NodeIndex(i), ns[i].Fresh().SK, ns[i].Fresh().PK)
				c.Check(err == nil && fx.OpEq(got, r.Share(i)) && intact(), "share", "%s: share of %d is %s (%s), want %s", what, i, fx.ShowOp(got), errStr(err), hexes(r.Share(i)))
			}
			c.Eval(n + 1)
		},
	}, &explore.Space{
		Name:  "dealing-contexts",
		Bound: fmt.Sprintf("4 kinds x 2 recipients x %d dealer indices x %d associated data (0..%d bytes) x recipients distinct, equal, or with a key of generator or identity", len(dealers), len(ads), len(ads[len(ads)-1])),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			d := dealers[c.Choose("dealer", len(dealers))]
			ad := ads[c.Choose("associated data", len(ads))]
			keys := 0
			if len(ad) == 32 || e.Thorough {
				keys = c.Choose("keys", 4)
			}
			ns := fx.Nodes(e.Label("contexts"), 2)
			switch keys {
			case 1:
				ns[1] = ns[0]
			case 2:
				ns[0] = fx.NodeOf(ref.I(1))
			case 3:
				ns[0] = fx.NodeOf(ref.I(0))
			}
			o := cachedOperation(e, kind, 2, 2)
			c.Key(kind, d, ad, keys)
			dealOne(c, fmt.Sprintf("%s by %d with %d bytes of data", dealName(kind, 2, 2), d, len(ad)), o, e.Label("contexts", kind), 2, ns, d, ad)
			c.Eval(1)
		},
	}, &explore.Space{
		Name:  "dealing-secrets",
		Bound: "3 kinds with secrets; each secret and mask out of 6 boundary values; 2 recipients",
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("operation", 3)
			al := []*big.Int{ref.I(0), ref.I(1), ref.Neg(ref.I(1)), ref.HalfN, randScalar(e, "secret", 0), randScalar(e, "secret", 1)}
			vals := make([]*big.Int, kind)
			for i := range vals {
				vals[i] = al[c.Choose("secret", len(al))]
			}
			sec := boundarySecret(kind, vals)
			ns := fx.Nodes(e.Label("secrets"), 2)
			ad := ads[3]
			c.Key(kind, fmt.Sprint(vals))
			l, err := fx.Deal(sec, e.Label("secrets"), 2, ns, 1, ad)
			r := fx.RefDeal(sec, e.Label("secrets"), 2, ns, 1, ad)
			c.Check(err == nil, "creation", "%s of %s: %v", kindNames[kind], hexes(vals), err)
			c.Check(fx.DealingDiff(l, r) == "", "dealing", "%s of %s: %s is not the published one", kindNames[kind], hexes(vals), fx.DealingDiff(l, r))
			c.Eval(1)
		},
	}, &explore.Space{
		Name:  "complaints",
		Bound: fmt.Sprintf("both ciphertext kinds x %d dealer indices x 3 receivers x %d associated data x 2 seeds: shared secret and proof, and the same through the generation of all complaints", len(dealers), len(ads)),
		Run: func(c *explore.Ctx) {
			kind := []int{ref.KRandom, ref.KUnmasked}[c.Choose("operation", 2)]
			d := dealers[c.Choose("dealer", len(dealers))]
			who := c.Choose("receiver", 3)
			ad := ads[c.Choose("associated data", len(ads))]
			s := c.Choose("seed", 2)
			ns := fx.Nodes(e.Label("complain exactly"), 3)
			key := fmt.Sprint("exact complaint", e.Seed, kind, d, len(ad))
			var bad *anyDealing
			if v, ok := honestCache.Load(key); ok {
				bad = v.(*anyDealing)
			} else {
				_, rs := fx.LSeed(e.Label("exact bad", kind))
				bad = badDealing(e, kind, rs, d, ns, ad, func(i, j int) bool { return true })
				honestCache.Store(key, bad)
			}
			c.Key(kind, d, who, ad, s)
			ls, rsd := fx.LSeed(e.Label("exact complaint", s))
			in, intact := fx.Canary(ad)
			k, err := complaints.NewComplaintInternal(ls, bad.lib(), common.NodeIndex(d), common.NodeIndex(who), lsk(ns[who].Sk), lpk(ns[who].Pk), in)
			sh, pr := ref.NewComplaint(rsd, bad.cipher.Eph, d, who, ns[who].Sk, ad)
			what := fmt.Sprintf("complaint of %d against %d with %d bytes of data", who, d, len(ad))
			c.Check(err == nil && fx.SameParts(k, []ref.P{sh}, pr.C, pr.R), "complaint", "%s is not the published one (%s)", what, errStr(err))
			all, err := complaints.GenerateComplaints(fx.DealMap(map[int]*dealings.IDkgDealingInternal{d: bad.lib()}), in, common.NodeIndex(who), lsk(ns[who].Sk), lpk(ns[who].Pk), ls)
			checkSet(c, what, all, err, map[int]*anyDealing{d: bad}, rsd, who, ns, ad)
			c.Check(intact(), "input changed", "%s: the data was changed", what)
			c.Eval(1)
		},
	}, &explore.Space{
		Name:  "complaint-seeds",
		Bound: "a generation against 3 dealers (indices 0, 7, 4294967295) with every subset of the dealings bad, receiver 0..1",
		Run: func(c *explore.Ctx) {
			idx := []int{0, 7, 1<<32 - 1}
			mask := c.Choose("bad", 8)
			who := c.Choose("receiver", 2)
			ns := fx.Nodes(e.Label("complaint seeds"), 2)
			ad := ads[3]
			dm, rd := map[int]*dealings.IDkgDealingInternal{}, map[int]*anyDealing{}
			for j, d := range idx {
				_, rs := fx.LSeed(e.Label("complaint seeds", j))
				rd[d] = badDealing(e, ref.KRandom, rs, d, ns, ad, func(i, k int) bool { return mask>>j&1 == 1 })
				dm[d] = rd[d].lib()
			}
			ls, rs := fx.LSeed(e.Label("complaint seeds"))
			c.Key(mask, who)
			got, err := complaints.GenerateComplaints(fx.DealMap(dm), ad, common.NodeIndex(who), lsk(ns[who].Sk), lpk(ns[who].Pk), ls)
			checkSet(c, "several dealers", got, err, rd, rs, who, ns, ad)
		},
	}, &explore.Space{
		Name:  "presignature-randomiser",
		Bound: fmt.Sprintf("%d requests x keys and presignatures out of 6 points (generator, its inverse, small multiples, random) x coordinates affine or scaled", len(rs)),
		Run: func(c *explore.Ctx) {
			r := rs[c.Choose("request", len(rs))]
			pts := []*big.Int{ref.I(1), ref.Neg(ref.I(1)), ref.I(2), ref.HalfN, randScalar(e, "rho", 0), randScalar(e, "rho", 1)}
			kx := pts[c.Choose("key", len(pts))]
			px := pts[c.Choose("presignature", len(pts))]
			scaled := c.Bool("scaled")
			kp, pp := ref.MulG(kx), ref.MulG(px)
			c.Key(showRequest(r), kx, px, scaled)
			kl, pl := fx.Pt(kp), fx.Pt(pp)
			if scaled {
				kl, pl = fx.Rebase(kl), fx.Rebase(pl)
			}
			tr := func(p curve.EccPoint) *dealings.IDkgTranscriptInternal {
				return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: poly.SimpleCM.New([]curve.EccPoint{p})}}
			}
			h, hOK := fx.Canary(r.Hash)
			x, xOK := fx.Canary(r.Randomness)
			rho, tweak, rnd, pre, err := sign.DeriveRho(fx.K, h, x, fx.Path(r.Path), tr(kl), tr(pl))
			wr, wt, wn, wp := r.Rho(kp, pp)
			what := showRequest(r)
			c.Check(err == nil, "derivation", "%s: %v", what, err)
			c.Check(fx.SEq(tweak, wt), "key tweak", "%s: %x, want %x", what, tweak.Serialize(), wt)
			c.Check(fx.SEq(rnd, wn), "randomiser", "%s: %x, want %x", what, rnd.Serialize(), wn)
			c.Check(fx.PEq(pre, wp), "presignature", "%s: %x, want %x", what, pre.Serialize(), wp.Bytes())
			c.Check(fx.SEq(rho, wr), "r", "%s: %x, want %x", what, rho.Serialize(), wr)
			c.Check(hOK() && xOK() && fx.PEq(kl, kp) && fx.PEq(pl, pp), "input changed", "%s: inputs were changed", what)
			c.Eval(4)
		},
	}, &explore.Space{
		Name:  "signing",
		Bound: fmt.Sprintf("%d requests x thresholds 1..3: share of signers 0..3, combined signature", len(rs)),
		Run: func(c *explore.Ctx) {
			r := rs[c.Choose("request", len(rs))]
			t := 1 + c.Choose("threshold", 3)
			q := cachedQuintuple(e, "exact", t)
			c.Key(showRequest(r), t)
			m := map[int]*sign.ThresholdEcdsaSigShareInternal{}
			for i := 0; i < t; i++ {
				num, den := q.refShare(r, i+t%2)
				s, err := q.libShare(r, i+t%2, 0)
				c.Check(err == nil && shareIs(s, num, den), "share", "%s, signer %d: the share is not the published one (%s)", showRequest(r), i+t%2, errStr(err))
				m[i+t%2] = s
			}
			sig, err := q.libSignature(r, t, m)
			c.Check(err == nil, "combination", "%s: %v", showRequest(r), err)
			rr, s, high := q.refSignature(r)
			c.Check(fx.SEq(sig.R, rr) && fx.SEq(sig.S, s), "signature", "%s: (%x, %x), want (%x, %x)", showRequest(r), sig.R.Serialize(), sig.S.Serialize(), rr, s)
			c.Outcome(high)
			c.Eval(t + 1)
		},
	}, &explore.Space{
		Name:  "keys",
		Bound: fmt.Sprintf("%d seeds: key pair, second key drawn from the same generator, seeds from randomness", Pick(e, 200, 5000)),
		Run: func(c *explore.Ctx) {
			i := c.Choose("seed", Pick(e, 200, 5000))
			lb := e.Label("keypair", i)
			ls, rs := fx.LSeed(lb)
			c.Key(lb)
			pk, sk, err := mega.GenKeypair(fx.K, ls)
			want := rs.Scalar()
			c.Check(err == nil && fx.SEq(sk.SecretScalar(), want) && fx.PEq(pk.PublicPoint(), ref.MulG(want)), "key pair", "seed %d: %s", i, errStr(err))
			c.Check(fx.PEq(sk.PublicKey().PublicPoint(), ref.MulG(want)) && bytes.Equal(sk.Serialize(), ref.Bytes32(want)) && bytes.Equal(pk.Serialize(), ref.MulG(want).Bytes()), "key pair", "seed %d: encodings", i)
			lr, rr := ls.Rng(), rs.Rng()
			for k := 0; k < 2; k++ {
				w := rr.Scalar()
				c.Check(fx.SEq(mega.PrivateKey.GeneratePrivateKey(fx.K, lr).SecretScalar(), w), "private key", "seed %d: key %d drawn from one generator", i, k)
			}
			a, b := seed.FromRandomness(rand.NewChaCha20(rs)), ref.NewSeed(rs.Rng().Next(32), "ic-crypto-seed-from-randomness")
			c.Check(fx.SEq(curve.Scalar.Random(fx.K, a.Rng()), b.Scalar()), "seed from randomness", "seed %d", i)
			c.Eval(5)
		},
	})
	sp = append(sp, largeExact(e)...)
	return append(sp, encryptionContexts(e)...)
}

// encryptionContexts compares ciphertexts for all contexts, and the base of
// the proof of possession on its own.
func encryptionContexts(e Env) []*explore.Space {
	ads := adAlphabet(e)
	return []*explore.Space{{
		Name:  "encryption",
		Bound: fmt.Sprintf("both kinds x %d dealers x %d associated data x 1..%d recipients", len(dealers), len(ads), Pick(e, 3, 6)),
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			d := dealers[c.Choose("dealer", len(dealers))]
			ad := ads[c.Choose("associated data", len(ads))]
			n := 1 + c.Choose("recipients", Pick(e, 3, 6))
			ns := fx.Nodes(e.Label("encrypt exactly"), n)
			plain := make([][]*big.Int, n)
			for i := range plain {
				for j := 0; j < kind; j++ {
					plain[i] = append(plain[i], randScalar(e, "plain", i, j))
				}
			}
			lb := e.Label("encrypt", kind, n)
			c.Key(kind, d, ad, n)
			in, intact := fx.Canary(ad)
			x, err := encryptLib(kind, lb, plain, fx.PKs(ns), d, in)
			_, rs := fx.LSeed(lb)
			r := ref.Encrypt(kind, rs, plain, fx.RPKs(ns), d, ad)
			what := fmt.Sprintf("kind %d by %d for %d recipients with %d bytes of data", kind, d, n, len(ad))
			c.Check(err == nil && intact(), "encryption", "%s: %s", what, errStr(err))
			c.Check(fx.CipherDiff(x, r) == "", "ciphertext", "%s: %s is not the published one", what, fx.CipherDiff(x, r))
			c.Eval(1)
		},
	}}
}
