package checks

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"
	"sync"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"

	"verif/harness/fx"
	"verif/harness/ref"
)

// things is a set of library objects which operations share.
type things struct {
	Sk    [3]*mega.MEGaPrivateKey
	Pk    [3]*mega.MEGaPublicKey
	Seeds [2]*seed.Seed
	Ads   [2][]byte

	Ops      [4]dealings.IDkgTranscriptOperationInternal
	Secrets  [4][2]dealings.SecretShares
	Deals    [4][3]*dealings.IDkgDealingInternal
	Maps     [4]*btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	Trs      [4]*dealings.IDkgTranscriptInternal
	Dealers  []common.NodeIndex
	Shares   [4][2][]poly.CommitmentOpening // per receiver, the opening of every dealing
	Opened   [4]*btree.Map[common.NodeIndex, poly.CommitmentOpening]
	Provided [4]*btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]]

	Bad    [2]*dealings.IDkgDealingInternal
	BadMap [2]*btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	Compl  [2]*complaints.IDkgComplaintInternal

	Key, Kappa, Lambda, Kl, Xl    *dealings.IDkgTranscriptInternal
	LambdaO, KlO, XlO             [2]poly.CommitmentOpening
	Hash, Rnd                     [2][]byte
	Path                          [2]*key.DerivationPath
	SigShares                     [2]*btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]
	Sigs                          [2]*sign.ThresholdEcdsaCombinedSigInternal
	Master                        *key.MasterEcdsaPublicKey
	Index                         []key.DerivationIndex
	S                             [4]curve.EccScalar
	F                             [3]curve.EccFieldElement
	P                             [4]curve.EccPoint
	Poly                          [3]*poly.Polynomial
	Com                           [4]poly.PolynomialCommitment
	Open                          [4]poly.CommitmentOpening
	OpenBytes                     [2]poly.CommitmentOpeningBytes
	Samples                       [][2]curve.EccScalar
	Nodes                         []common.NodeIndex
	Lagr                          *poly.LagrangeCoefficients
	ScalarList                    []curve.EccScalar
	PointList                     []curve.EccPoint
	PairList                      [][2]curve.EccScalar
	W                             []curve.EccScalar
	Dlog                          [2]*zk.ProofOfDLogEquivalence
	Eq                            [2]*zk.ProofOfEqualOpenings
	Prod                          [2]*zk.ProofOfProduct
	DlogP, EqP, ProdP             []curve.EccPoint
	Single                        *mega.MEGaCiphertextSingle
	Pair                          *mega.MEGaCiphertextPair
	Oracle                        *ro.RandomOracle
	Msg, Dst, Wide, Sb, Pb, Ub    []byte
	LongDst, LongMsg              []byte
	Refused                       [][]byte
	ComBytes, OpeningBytes, CborS [2][]byte
	Enc                           curve.EncodePoint
}

// operationDef is one operation on shared things; it returns everything it
// computed. v selects between two sets of arguments.
type operationDef struct {
	name string
	run  func(w *things, v int) []any
}

// roomy copies bytes into a slice with spare capacity.
func roomy(b []byte) []byte {
	out := make([]byte, len(b), len(b)+9)
	copy(out, b)
	for i := len(b); i < cap(out); i++ {
		out[:cap(out)][i] = 0xa5
	}
	return out
}

var thingsCache sync.Map

// newThings returns a private copy of the things.
func newThings(e Env) *things {
	if v, ok := thingsCache.Load(e.Seed); ok {
		return fx.DeepCopy(v.(*things))
	}
	w := makeThings(e)
	v, _ := thingsCache.LoadOrStore(e.Seed, w)
	return fx.DeepCopy(v.(*things))
}

func makeThings(e Env) *things {
	w := &things{}
	ns := fx.Nodes(e.Label("things"), 3)
	for i, n := range ns {
		w.Sk[i], w.Pk[i] = lsk(n.Sk), lpk(n.Pk)
	}
	for i := range w.Seeds {
		w.Seeds[i], _ = fx.LSeed(e.Label("things seed", i))
		w.Ads[i] = roomy([]byte(fmt.Sprint("things associated data ", i)))
	}
	t := 2
	dl := []int{0, 1, 2}
	w.Dealers = []common.NodeIndex{0, 1, 2}
	for k := 0; k < 4; k++ {
		o := newOperation(e, k, 2, 2)
		w.Ops[k] = o.lib(true)
		for v := range w.Secrets[k] {
			w.Secrets[k][v] = fx.LSecret(o.secret(v))
		}
		ds := map[int]*ref.Dealing{}
		m := map[int]*dealings.IDkgDealingInternal{}
		for d := range dl {
			ds[d] = fx.RefDeal(o.secret(d), e.Label("things dealing", k, d), t, ns, d, w.Ads[0])
			w.Deals[k][d] = fromRef(ds[d]).lib()
			m[d] = w.Deals[k][d]
		}
		w.Maps[k] = fx.DealMap(m)
		after := combineRef(k, ds)
		w.Trs[k] = after.transcript()
		for i := range w.Shares[k] {
			for _, d := range dl {
				w.Shares[k][i] = append(w.Shares[k][i], fx.Opening(ds[d].Share(i)))
			}
		}
		w.Opened[k] = fx.OpenMap(map[int]poly.CommitmentOpening{1: fx.Opening(ds[1].Share(1)), 2: fx.OpeningPtr(ds[1].Share(2))})
		w.Provided[k] = openingsMap(map[int]map[int]poly.CommitmentOpening{1: {1: fx.Opening(ds[1].Share(1)), 2: fx.OpeningPtr(ds[1].Share(2))}})
	}
	for i, k := range []int{ref.KUnmasked, ref.KRandom} {
		_, rs := fx.LSeed(e.Label("things bad", i))
		bad := badDealing(e, k, rs, 1, ns, w.Ads[0], func(i, j int) bool { return i == 0 })
		w.Bad[i] = bad.lib()
		w.BadMap[i] = fx.DealMap(map[int]*dealings.IDkgDealingInternal{1: w.Bad[i], 2: bad.lib()})
		w.Compl[i] = must(complaints.NewComplaintInternal(w.Seeds[0], w.Bad[i], 1, 0, w.Sk[0], w.Pk[0], w.Ads[0]))
	}
	q := cachedQuintuple(e, "things", 2)
	w.Key, w.Kappa, w.Lambda, w.Kl, w.Xl = q.key.transcript(), q.kappa.transcript(), q.lambda.transcript(), q.kl.transcript(), q.xl.transcript()
	rs := requests(e)
	for v := 0; v < 2; v++ {
		r := []ref.Request{rs[0], rs[len(rs)-1]}[v]
		if v == 1 {
			r.Path = [][]byte{{0xff, 0xff}, {1, 2, 3, 4}, {}}
		}
		w.Hash[v], w.Rnd[v] = roomy(r.Hash), roomy(r.Randomness)
		p := make([]key.DerivationIndex, 0, 5)
		for _, x := range r.Path {
			p = append(p, roomy(x))
		}
		w.Path[v] = key.New(p)
		m := map[int]*sign.ThresholdEcdsaSigShareInternal{}
		for i := 0; i < 2; i++ {
			m[i] = fx.LShare(q.refShare(r, i))
		}
		w.SigShares[v] = shareMap(m)
		rr, s, _ := q.refSignature(r)
		w.Sigs[v] = &sign.ThresholdEcdsaCombinedSigInternal{R: fx.S(rr), S: fx.S(s)}
		w.LambdaO[v], w.KlO[v], w.XlO[v] = fx.Opening(q.lambda.share(v)), fx.OpeningPtr(q.kl.share(v)), fx.Opening(q.xl.share(v))
	}
	w.Master = &key.MasterEcdsaPublicKey{PublicKey: roomy(q.key.com[0].Bytes())}
	w.Index = []key.DerivationIndex{roomy([]byte{0xff, 0xff}), roomy([]byte{1, 2})}
	var vals []*big.Int
	for i := 0; i < 8; i++ {
		vals = append(vals, randScalar(e, "things scalar", i))
	}
	for i := range w.S {
		w.S[i] = fx.S(vals[i])
		w.P[i] = fx.Rebase(fx.Pt(ref.MulG(vals[i])))
	}
	for i := range w.F {
		w.F[i] = fieldOf(new(big.Int).Mod(vals[i], ref.FP))
	}
	w.F[2] = fieldOf(new(big.Int).Exp(vals[3], ref.I(2), ref.FP))
	w.Poly = [3]*poly.Polynomial{lpoly(ref.Poly(vals[:3])), lpoly(ref.Poly(vals[3:5])), lpoly(ref.Poly{vals[0], ref.I(0)})}
	sim, ped := cachedSharing(e, "things simple", false, 3), cachedSharing(e, "things pedersen", true, 3)
	w.Com = [4]poly.PolynomialCommitment{sim.lib(), ped.lib(), &dealings.InterpolationCommitment{PolynomialCommitment: sim.lib()}, &dealings.SummationCommitment{PolynomialCommitment: ped.lib()}}
	w.Open = [4]poly.CommitmentOpening{fx.Opening(sim.share(1)), fx.Opening(ped.share(1)), fx.OpeningPtr(sim.share(1)), fx.OpeningPtr(ped.share(2))}
	for i := range w.OpenBytes {
		w.OpenBytes[i] = w.Open[i].ToCommitmentOpeningBytes()
		w.ComBytes[i] = roomy(must(w.Com[i].Serialize()))
		w.OpeningBytes[i] = roomy(must(w.Open[i].Serialize()))
	}
	w.CborS = [2][]byte{roomy(must(fx.S(vals[0]).(*curve.Secp256k1Scalar).MarshalCBOR())), roomy(must(fx.Pt(ref.MulG(vals[0])).(*curve.Secp256k1Point).MarshalCBOR()))}
	for i, idx := range []int{0, 2, 5} {
		w.Samples = append(w.Samples, [2]curve.EccScalar{fx.S(ref.I(int64(idx) + 1)), fx.S(vals[i])})
		w.Nodes = append(w.Nodes, common.NodeIndex(idx))
	}
	w.Lagr = must(poly.Lagrange.AtZero(fx.K, w.Nodes))
	for i := 0; i < 3; i++ {
		w.ScalarList = append(w.ScalarList, fx.S(vals[i+2]))
		w.PointList = append(w.PointList, fx.Pt(ref.MulG(vals[i+2])))
		w.PairList = append(w.PairList, [2]curve.EccScalar{fx.S(vals[i]), fx.S(vals[i+1])})
	}
	zks := zkKinds()
	wv := []*big.Int{vals[0], vals[1], vals[2], ref.Mul(vals[0], vals[1]), vals[4]}
	w.W = fx.Ss(wv)
	for v := 0; v < 2; v++ {
		mk := func(k int) []*big.Int { return zks[k].refMake(e.Label("things proof", v), wv, w.Ads[v]) }
		w.Dlog[v] = zks[0].make(mk(0)).(*zk.ProofOfDLogEquivalence)
		w.Eq[v] = zks[1].make(mk(1)).(*zk.ProofOfEqualOpenings)
		w.Prod[v] = zks[2].make(mk(2)).(*zk.ProofOfProduct)
	}
	w.DlogP, w.EqP, w.ProdP = fx.Pts(zks[0].points(wv)), fx.Pts(zks[1].points(wv)), fx.Pts(zks[2].points(wv))
	plain := func(k int) [][]*big.Int {
		var out [][]*big.Int
		for i := 0; i < 3; i++ {
			out = append(out, vals[i:i+k])
		}
		return out
	}
	_, rs0 := fx.LSeed(e.Label("things seed", 0))
	w.Single = fx.LCipher(ref.Encrypt(ref.Single, rs0, plain(1), fx.RPKs(ns), 1, w.Ads[0])).(*mega.MEGaCiphertextSingle)
	w.Pair = fx.LCipher(ref.Encrypt(ref.Pair, rs0, plain(2), fx.RPKs(ns), 1, w.Ads[0])).(*mega.MEGaCiphertextPair)
	w.Oracle = ro.NewRandomOracle("things")
	w.Oracle.AddScalar("scalar", w.S[0])
	w.Oracle.AddPoint("point", w.P[0])
	w.Oracle.AddBytesString("bytes", w.Ads[0])
	w.Msg, w.Dst = roomy([]byte("things message")), roomy([]byte("things domain"))
	for i := range 310 {
		w.LongDst = append(w.LongDst, byte(i*7), byte(i>>3))
		w.LongMsg = append(w.LongMsg, byte(i*5))
	}
	w.LongDst, w.LongMsg = roomy(w.LongDst[:310]), roomy(w.LongMsg)
	w.Wide = roomy(make([]byte, 48))
	w.Wide[0], w.Wide[47] = 0xfe, 3
	w.Sb, w.Pb = roomy(ref.Bytes32(vals[0])), roomy(ref.MulG(vals[0]).Bytes())
	w.Ub = roomy(ref.MulG(vals[0]).Uncompressed())
	w.Enc = must(curve.Encode.FromBytes(w.Ub))
	off := roomy(ref.MulG(vals[0]).Uncompressed())
	off[64] ^= 1
	high := bytes.Repeat([]byte{0xff}, 33)
	high[0] = 2
	w.Refused = [][]byte{nil, {0}, w.Pb[:32], append([]byte{5}, w.Pb[1:]...), off, high, roomy(high[1:]), bytes.Repeat([]byte{1}, 70)}
	return w
}

func all(x ...any) []any {
	for i := range x {
		if e, ok := x[i].(error); ok {
			x[i] = e != nil
		}
	}
	return x
}

func ni(i int) common.NodeIndex { return common.NodeIndex(i) }

// catalogue lists the operations.
func catalogue() []operationDef {
	var out []operationDef
	add := func(name string, f func(w *things, v int) []any) { out = append(out, operationDef{name, f}) }

	// dealings
	for k := 0; k < 4; k++ {
		add("deal "+kindNames[k], func(w *things, v int) []any {
			d, err := dealings.NewIDkgDealingInternal(w.Secrets[k][v], fx.K, w.Seeds[v], 2, w.Pk[:2], ni(v), w.Ads[v])
			return all(d, err)
		})
		add("verify publicly "+kindNames[k], func(w *things, v int) []any {
			return all(w.Deals[k][v].PubliclyVerify(fx.K, w.Ops[k], 2, ni(v), 3, w.Ads[0]), w.Deals[k][v].PubliclyVerify(fx.K, w.Ops[k], 2, ni(1-v), 3, w.Ads[0]))
		})
		add("verify privately "+kindNames[k], func(w *things, v int) []any {
			return all(w.Deals[k][v].PrivateVerify(fx.K, w.Sk[v], w.Pk[v], w.Ads[0], ni(v), ni(v)), w.Deals[k][v].PrivateVerify(fx.K, w.Sk[1-v], w.Pk[1-v], w.Ads[0], ni(v), ni(v)))
		})
		add("open dealing "+kindNames[k], func(w *things, v int) []any {
			o, err := dealings.CommitmentOpening.OpenDealing(w.Deals[k][v], w.Ads[0], ni(v), ni(v), w.Sk[v], w.Pk[v])
			return all(o, err)
		})
		add("make transcript "+kindNames[k], func(w *things, v int) []any {
			t, err := dealings.NewTranscriptInternal(fx.K, 2, w.Maps[k], w.Ops[k])
			if v == 1 {
				_, err2 := dealings.NewTranscriptInternal(fx.K, 2, w.Maps[(k+1)%4], w.Ops[k])
				return all(t, err, err2)
			}
			return all(t, err)
		})
		add("combine dealings "+kindNames[k], func(w *things, v int) []any {
			o, err := dealings.CommitmentOpening.FromDealings(w.Maps[k], w.Trs[k].CombinedCommitment, w.Ads[0], ni(v), w.Sk[v], w.Pk[v])
			return all(o, err)
		})
		add("combine dealings with openings "+kindNames[k], func(w *things, v int) []any {
			o, err := dealings.CommitmentOpening.FromDealingsAndOpenings(w.Maps[k], w.Provided[k], w.Trs[k].CombinedCommitment, w.Ads[0], ni(v), w.Sk[v], w.Pk[v])
			return all(o, err)
		})
		add("combine openings "+kindNames[k], func(w *things, v int) []any {
			o, err := dealings.CommitmentOpening.CombineOpenings(w.Dealers, w.Shares[k][v], w.Trs[k].CombinedCommitment, ni(v), fx.K)
			return all(o, err)
		})
		add("reconstruct share "+kindNames[k], func(w *things, v int) []any {
			o, err := dealings.ReconstructShareFromOpenings(w.Deals[k][1], w.Opened[k], ni(v*7))
			return all(o, err)
		})
		add("transcript "+kindNames[k], func(w *things, v int) []any {
			t, u := w.Trs[k], w.Trs[(k+v)%4]
			b, err := t.CombinedCommitment.Serialize()
			return all(t.ConstantTerm().Serialize(), t.EvaluateAt(ni(v*9)), t.Compare(*u), b, err)
		})
	}
	add("commit and encrypt", func(w *things, v int) []any {
		a, b, err := dealings.EncryptAndCommitPairPolynomial(w.Poly[0], w.Poly[v], 3, w.Pk[:], ni(v), w.Ads[v], w.Seeds[v])
		c, d, err2 := dealings.EncryptAndCommitSinglePolynomial(w.Poly[v], 3, w.Pk[:], ni(v), w.Ads[v], w.Seeds[v])
		return all(a, b, err, c, d, err2)
	})
	add("combine commitments", func(w *things, v int) []any {
		a, err := dealings.CombineCommitmentsViaInterpolation(poly.Pedersen, fx.K, 2, w.Maps[v*3])
		b, err2 := dealings.CombineCommitmentsViaInterpolation(poly.Simple, fx.K, 2, w.Maps[1+v])
		return all(a, err, b, err2)
	})
	add("secrets from opening bytes", func(w *things, v int) []any {
		a, err := dealings.Secret.From(w.OpenBytes[v], nil)
		b, err2 := dealings.Secret.From(w.OpenBytes[0], w.OpenBytes[1])
		return all(a, err, b, err2)
	})

	// complaints
	add("complain", func(w *things, v int) []any {
		a, err := complaints.NewComplaintInternal(w.Seeds[v], w.Bad[v], 1, 0, w.Sk[0], w.Pk[0], w.Ads[0])
		return all(a, err)
	})
	add("generate complaints", func(w *things, v int) []any {
		a, err := complaints.GenerateComplaints(w.BadMap[v], w.Ads[0], 0, w.Sk[0], w.Pk[0], w.Seeds[v])
		return all(a, err)
	})
	add("verify complaint", func(w *things, v int) []any {
		return all(w.Compl[v].Verify(w.Bad[v], 1, 0, w.Pk[0], w.Ads[0]), w.Compl[v].Verify(w.Bad[v], 1, 1, w.Pk[1], w.Ads[0]))
	})

	// signing
	add("derive rho", func(w *things, v int) []any {
		a, b, c, d, err := sign.DeriveRho(fx.K, w.Hash[v], w.Rnd[v], w.Path[v], w.Key, w.Kappa)
		return all(a, b, c, d, err)
	})
	add("sign share", func(w *things, v int) []any {
		s, err := sign.NewThresholdEcdsaSigShareInternal(w.Path[v], w.Hash[v], w.Rnd[v], w.Key, w.Kappa, w.LambdaO[v], w.KlO[v], w.XlO[v], fx.K)
		return all(s, err)
	})
	add("verify share", func(w *things, v int) []any {
		s, _ := w.SigShares[v].Get(ni(v))
		return all(s.Verify(w.Path[v], w.Hash[v], w.Rnd[v], ni(v), w.Key, w.Kappa, w.Lambda, w.Kl, w.Xl, fx.K),
			s.Verify(w.Path[v], w.Hash[v], w.Rnd[v], ni(1-v), w.Key, w.Kappa, w.Lambda, w.Kl, w.Xl, fx.K))
	})
	add("combine signature", func(w *things, v int) []any {
		s, err := sign.NewThresholdEcdsaCombinedSigInternal(w.Path[v], w.Hash[v], w.Rnd[v], w.Key, w.Kappa, 2, w.SigShares[v], fx.K)
		return all(s, err)
	})
	add("verify signature", func(w *things, v int) []any {
		return all(w.Sigs[v].Verify(w.Path[v], w.Hash[v], w.Rnd[v], w.Key, w.Kappa, fx.K), w.Sigs[1-v].Verify(w.Path[v], w.Hash[v], w.Rnd[v], w.Key, w.Kappa, fx.K))
	})
	add("derive public key", func(w *things, v int) []any {
		k, err := sign.DerivePublicKey(w.Master, w.Path[v])
		return all(k, err)
	})
	add("derive tweak", func(w *things, v int) []any {
		t, c, err := w.Path[v].DeriveTweak(w.P[v])
		return all(t, c, err)
	})
	add("next index", func(w *things, v int) []any { return all([]byte(w.Index[v].Next())) })
	add("hash to integer", func(w *things, v int) []any {
		s, err := sign.ConvertHashToInteger(w.Hash[v], fx.K)
		x, err2 := sign.EcdsaConversion(w.P[v])
		m, err3 := key.ComputeHMAC(sha512.New, w.Rnd[v], w.Hash[v], w.Msg)
		return all(s, err, x, err2, m, err3, common.ReverseBytes(w.Hash[v]))
	})

	// encryption
	add("key pair", func(w *things, v int) []any {
		pk, sk, err := mega.GenKeypair(fx.K, w.Seeds[v])
		return all(pk, sk, err, w.Sk[v].PublicKey(), w.Sk[v].Serialize(), w.Pk[v].Serialize(), mega.VerifyMegaPublicKey(fx.K, w.Pb))
	})
	add("read keys", func(w *things, v int) []any {
		a, err := mega.PublicKey.Deserialize(fx.K, w.Pb)
		b, err2 := mega.PrivateKey.Deserialize(fx.K, w.Sb)
		return all(a, err, b, err2)
	})
	add("encrypt", func(w *things, v int) []any {
		if v == 0 {
			c, err := mega.EncryptCiphertextSingle(w.Seeds[v], w.ScalarList, w.Pk[:], ni(v), w.Ads[v])
			return all(c, err)
		}
		c, err := mega.EncryptCiphertextPair(w.Seeds[v], w.PairList, w.Pk[:], ni(v), w.Ads[v])
		return all(c, err)
	})
	add("decrypt single", func(w *things, v int) []any {
		s, err := w.Single.Decrypt(w.Ads[0], 1, ni(v), w.Sk[v], w.Pk[v])
		x, err2 := w.Single.DecryptFromSharedSecret(w.Ads[0], 1, ni(v), w.Pk[v], w.P[v])
		return all(s, err, x, err2)
	})
	add("decrypt pair", func(w *things, v int) []any {
		s, err := w.Pair.Decrypt(w.Ads[0], 1, ni(v), w.Sk[v], w.Pk[v])
		x, err2 := w.Pair.DecryptFromSharedSecret(w.Ads[0], 1, ni(v), w.Pk[v], w.P[v])
		return all(s, err, x, err2)
	})
	add("check ciphertexts", func(w *things, v int) []any {
		return all(w.Single.CheckValidity(3, w.Ads[v], 1), w.Pair.CheckValidity(3, w.Ads[v], 1), w.Single.VerifyPop(w.Ads[v], 1), w.Pair.VerifyPop(w.Ads[v], 1), w.Single.Clone(),
			mega.VerifyPop(mega.CiphertextSingle, w.Ads[v], 1, w.Single.Ephemeral(), w.Single.PopPublic(), w.Single.Proof()))
	})
	add("proof of possession", func(w *things, v int) []any {
		ct := mega.MEGaCiphertextType(v)
		a, b, c, d, err := mega.ComputeEphKeyAndPop(ct, fx.K, w.Seeds[v], w.Ads[v], ni(v))
		p, err2 := mega.ComputePopBase(ct, fx.K, w.Ads[v], ni(v), w.P[v])
		return all(a, b, c, d, err, p, err2)
	})

	// proofs
	add("prove equal logarithms", func(w *things, v int) []any {
		p, err := zk.ProofOfDLogEquivalenceIns.Create(w.Seeds[v], w.W[0], w.DlogP[0], w.DlogP[1], w.Ads[v])
		return all(p, err)
	})
	add("verify equal logarithms", func(w *things, v int) []any {
		x := w.DlogP
		i, err := zk.ProofOfDLogEquivalenceIns.FromCommitments(x[0], x[1], x[2], x[3])
		a, b, err2 := i.RecoverCommitments(w.Dlog[v])
		h, err3 := i.HashToChallenge(x[v], x[1], w.Ads[v])
		j, err4 := zk.ProofOfDLogEquivalenceIns.FromWitness(x[0], x[1], w.W[v])
		return all(w.Dlog[v].Verify(x[0], x[1], x[2], x[3], w.Ads[v]), w.Dlog[v].Verify(x[1], x[0], x[2], x[3], w.Ads[v]), i, err, a, b, err2, h, err3, j, err4, w.Dlog[v].Clone())
	})
	add("prove equal openings", func(w *things, v int) []any {
		p, err := zk.ProofOfEqualOpeningsIns.Create(w.Seeds[v], w.W[v], w.W[1], w.Ads[v])
		return all(p, err)
	})
	add("verify equal openings", func(w *things, v int) []any {
		x := w.EqP
		i := zk.ProofOfEqualOpeningsIns.FromCommitments(x[0], x[1])
		h, err := i.HashToChallenge(x[v], w.Ads[v])
		return all(w.Eq[v].Verify(x[0], x[1], w.Ads[v]), w.Eq[v].Verify(x[1], x[0], w.Ads[v]), i, i.RecoverCommitments(w.Eq[v]), h, err, zk.ProofOfEqualOpeningsIns.FromWitness(w.W[0], w.W[v]), w.Eq[v].Clone())
	})
	add("prove product", func(w *things, v int) []any {
		p, err := zk.ProofOfProductIns.Create(w.Seeds[v], w.W[0], w.W[1], w.W[2], w.W[3], w.W[4], w.Ads[v])
		return all(p, err)
	})
	add("verify product", func(w *things, v int) []any {
		x := w.ProdP
		i := zk.ProofOfProductIns.FromCommitments(x[0], x[1], x[2])
		a, b := i.RecoverCommitment(w.Prod[v])
		h, err := i.HashToChallenge(x[v], x[1], w.Ads[v])
		return all(w.Prod[v].Verify(x[0], x[1], x[2], w.Ads[v]), w.Prod[v].Verify(x[1], x[0], x[2], w.Ads[v]), i, a, b, h, err,
			zk.ProofOfProductIns.FromWitness(w.W[0], w.W[1], w.W[2], w.W[3], w.W[v]), w.Prod[v].Clone())
	})

	// polynomials and commitments
	add("commit", func(w *things, v int) []any {
		a, err := poly.SimpleCM.Create(w.Poly[v], 3)
		b, err2 := poly.PedersenCM.Create(w.Poly[v], w.Poly[1], 3)
		return all(a, err, b, err2)
	})
	for i := range 4 {
		add(fmt.Sprint("commitment ", i), func(w *things, v int) []any {
			x := w.Com[i]
			b, err := x.Serialize()
			r, err2 := x.ReturnOpeningIfConsistent(1, w.Open[(i+v)%4])
			return all(x.ConstantTerm().Serialize(), x.EvaluateAt(ni(v*300)), b, err, x.StableRepresentation(), x.CheckOpening(1, w.Open[i%2+2*v]), r, err2, x.Len(), x.Clone(),
				x.VerifyIs(poly.Simple, fx.K), x.Equal(w.Com[i%2]), x.Equal(w.Com[(i+1)%2]))
		})
	}
	add("read commitments", func(w *things, v int) []any {
		a, err := poly.Commitment.Deserialize(w.OpeningBytes[v])
		b, err2 := poly.VerifDeserializeCommitment(w.ComBytes[v])
		return all(a, err, b, err2)
	})
	add("opening encodings", func(w *things, v int) []any {
		a, err := w.Open[v].Serialize()
		return all(a, err, w.Open[v].ToCommitmentOpeningBytes(), w.OpenBytes[v].ToCommitmentOpening(), w.Open[v].ToString(), poly.OpeningValue(w.Open[v+2]))
	})
	add("interpolate", func(w *things, v int) []any {
		p, err := poly.Poly.Interpolate(fx.K, w.Samples[v:])
		a, err2 := w.Lagr.InterpolateScalar(w.ScalarList)
		b, err3 := w.Lagr.InterpolatePoint(w.PointList)
		l, err4 := poly.Lagrange.AtValue(w.S[v], w.Nodes)
		z, err5 := poly.Lagrange.AtZero(fx.K, w.Nodes[v:])
		return all(p, err, a, err2, b, err3, l, err4, z, err5, w.Lagr.Equal(l))
	})
	add("polynomials", func(w *things, v int) []any {
		p, q := w.Poly[v], w.Poly[2]
		z := func() *poly.Polynomial { return poly.Poly.Zero(fx.K) }
		rc, err := poly.Poly.RandomWithConstant(w.S[v], 3, w.Seeds[v].Rng())
		return all(p.EvaluateAt(w.S[v]), z().Add(p, q), z().Mul(p, q), z().MulScalar(p, w.S[v]), p.Equal(q), p.IsZero(), p.NonZeroCoefficients(), p.Coeff(1).Serialize(), rc, err,
			poly.Poly.Random(fx.K, 2, w.Seeds[v].Rng()), poly.Poly.New(fx.K, w.ScalarList))
	})

	// hashing and seeds
	add("oracle", func(w *things, v int) []any {
		o := ro.NewRandomOracle("fresh")
		o.AddPoints("points", w.PointList)
		o.AddScalar("scalar", w.S[v])
		o.AddBytesString("bytes", w.Ads[v])
		o.AddUint32("u", uint32(v))
		a, err := o.OutputScalars(fx.K, 2)
		b, err2 := o.OutputPoint(fx.K)
		c, err3 := o.OutputByteString(40 + v)
		return all(a, err, b, err2, c, err3)
	})
	add("shared oracle", func(w *things, v int) []any {
		a, err := w.Oracle.OutputScalar(fx.K)
		b, err2 := w.Oracle.OutputPoint(fx.K)
		c, err3 := w.Oracle.OutputByteString(33 * (v + 1))
		return all(a, err, b, err2, c, err3)
	})
	add("hash", func(w *things, v int) []any {
		a, err := curve.Scalar.HashToSeveralScalar(fx.K, 2, w.Msg[v:], w.Dst)
		b, err2 := curve.Point.HashToPoint(fx.K, w.Msg[v:], w.Dst)
		c, err3 := seed.ExpandMessageXmd(w.Msg, w.Dst[v:], 70)
		d, err4 := curve.HashToField(2, fx.K, w.Msg, w.Dst[v:])
		m, err5 := curve.MapToCurve(w.F[v])
		return all(a, err, b, err2, c, err3, d, err4, m, err5)
	})
	add("hash, long separators", func(w *things, v int) []any {
		dst := w.LongDst[v:]
		a, err := seed.ExpandMessageXmd(w.Msg, dst, 70)
		b, err2 := seed.ExpandMessageXmd(w.LongMsg[v:], dst[:255+v], 300)
		c, err3 := curve.Scalar.HashToScalar(fx.K, w.LongMsg, dst)
		d, err4 := curve.Point.HashToPoint(fx.K, w.LongMsg[:100], dst)
		_, err5 := seed.ExpandMessageXmd(w.Msg, dst, 8161)
		return all(a, err, b, err2, c, err3, d, err4, err5)
	})
	add("oracle, long fields", func(w *things, v int) []any {
		o := ro.NewRandomOracle(string(w.LongDst[v:]))
		o.AddBytesString(string(w.LongMsg[v:200]), w.LongMsg)
		o.AddUint64("n", 1<<40+uint64(v))
		o.AddPoints("points", w.PointList)
		a, err := o.OutputByteString(300)
		b, err2 := o.OutputScalars(fx.K, 5+v)
		return all(a, err, b, err2)
	})
	add("stream", func(w *things, v int) []any {
		r := w.Seeds[v].Rng()
		var b [200]byte
		r.FillUint8(b[:150])
		n := r.Uint64()
		r.FillUint8(b[150:])
		return all(b[:], n, r.Uint32(), w.Seeds[v].Derive(string(w.LongMsg)))
	})
	add("seeds", func(w *things, v int) []any {
		s := w.Seeds[v].Derive("x")
		return all(s, seed.FromBytes(w.Msg), seed.FromRng(s.Rng()), curve.Scalar.FromSeed(fx.K, w.Seeds[v]), curve.Scalar.Random(fx.K, s.Rng()), w.Seeds[v].Rng().Uint64())
	})

	// arithmetic on fresh receivers
	add("scalar arithmetic", func(w *things, v int) []any {
		a, b := w.S[v], w.S[v+1]
		z := func() curve.EccScalar { return curve.Scalar.Zero(fx.K) }
		return all(z().Add(a, b), z().Sub(a, b), z().Mul(a, b), z().Negate(a), z().Invert(a), z().Assign(a), a.Clone().Add(b, b), a.Equal(b), a.IsZero(), a.IsHigh(), a.Serialize(), a.SerializeTagged(), a.BigInt(),
			curve.Scalar.ToScalarBytes(a))
	})
	add("field arithmetic", func(w *things, v int) []any {
		a, b := w.F[v], w.F[v+1]
		z := func() curve.EccFieldElement { return curve.Field.Zero(fx.K) }
		s, ok := z().Sqrt(w.F[2])
		n, nok := z().Sqrt(a)
		cc := z()
		cc.CAssign(a, v)
		return all(z().Add(a, b), z().Sub(a, b), z().Mul(a, b), z().Negate(a), z().Invert(a), z().Assign(a), z().Square(a), z().Progenitor(a), s, ok, n, nok, cc, a.Equal(b), a.Sign(), a.AsBytes(), a.BigInt(), a.Clone())
	})
	add("point arithmetic", func(w *things, v int) []any {
		a, b := w.P[v], w.P[v+1]
		z := func() curve.EccPoint { return curve.Point.Identity(fx.K) }
		return all(z().AddPoints(a, b), z().SubPoints(a, b), z().Double(a), z().ScalarMul(a, w.S[v]), z().(*curve.Secp256k1Point).LinComb(a, w.S[v], b, w.S[2]), z().Assign(a), a.Clone().MulByNodeIndex(ni(v+3)), a.Clone(),
			a.Equal(b), a.IsInfinity(), a.AffineX(), a.AffineY(), a.Serialize(), a.SerializeTagged(), a.SerializeUncompressed())
	})
	add("point functions", func(w *things, v int) []any {
		return all(curve.Point.MulPoints(w.P[0], w.S[v], w.P[1], w.S[1]), curve.Point.Pedersen(w.S[v], w.S[2]), curve.Point.MulByG(w.S[v]))
	})
	add("read points", func(w *things, v int) []any {
		a, err := curve.Point.Deserialize(fx.K, w.Pb)
		b, err2 := curve.Point.DeserializeAnyFormat(fx.K, [][]byte{w.Pb, w.Ub}[v])
		c, err3 := curve.Scalar.Deserialize(fx.K, w.Sb)
		d, err4 := curve.Scalar.FromBytesWide(fx.K, w.Wide[v:])
		f, err5 := curve.Field.FromBytesWide(fx.K, w.Wide[v:])
		g, err6 := curve.Field.FromBytes(fx.K, w.Sb)
		h, err7 := curve.Point.FromFieldElems(w.P[v].AffineX(), w.P[v].AffineY())
		return all(a, err, b, err2, c, err3, d, err4, f, err5, g, err6, h, err7)
	})
	add("refuse bytes", func(w *things, v int) []any {
		var r []any
		for i := v; i < len(w.Refused); i += 2 {
			b := w.Refused[i]
			_, e1 := curve.Point.Deserialize(fx.K, b)
			_, e2 := curve.Point.DeserializeAnyFormat(fx.K, b)
			_, e3 := curve.Scalar.Deserialize(fx.K, b)
			_, e4 := curve.Field.FromBytes(fx.K, b)
			_, e5 := curve.Encode.FromBytes(b)
			_, e6 := poly.Commitment.Deserialize(b)
			r = append(r, e1, e2, e3, e4, e5, e6)
		}
		return all(r...)
	})
	add("interpolate, other sets", func(w *things, v int) []any {
		a, err := poly.Lagrange.AtZero(fx.K, []common.NodeIndex{0, ni(v + 1), ni(300 + v)})
		b, err2 := poly.Lagrange.AtValue(w.S[v], []common.NodeIndex{ni(v), 7})
		_, err3 := poly.Lagrange.AtZero(fx.K, []common.NodeIndex{1, ni(v + 1)})
		c, err4 := poly.Lagrange.AtZero(fx.K, []common.NodeIndex{ni(v)})
		return all(a, err, b, err2, err3, c, err4)
	})
	add("cbor", func(w *things, v int) []any {
		var s curve.Secp256k1Scalar
		var p curve.Secp256k1Point
		e1, e2 := s.UnmarshalCBOR(w.CborS[v]), p.UnmarshalCBOR(w.CborS[v])
		x, e3 := w.S[v].(*curve.Secp256k1Scalar).MarshalCBOR()
		y, e4 := w.P[v].(*curve.Secp256k1Point).MarshalCBOR()
		var r []any
		if e1 == nil {
			r = append(r, s.Serialize())
		}
		if e2 == nil {
			r = append(r, p.Serialize())
		}
		return all(append(r, e1, e2, x, e3, y, e4)...)
	})
	add("encode", func(w *things, v int) []any {
		a, err := curve.Encode.FromBytes([][]byte{w.Pb, w.Ub}[v])
		return all(a, err, w.Enc.Compress(), w.Enc.AsBytes(), w.Enc.X(), w.Enc.Y(), w.Enc.ToString(), w.Enc.Len(), curve.Encode.ConditionalSelect(w.Enc, w.Enc.Compress(), v),
			curve.Encode.FromUnTaggedBytes(w.Ub[1:]))
	})

	// whoever uses a constant in place must not change it for others
	add("use constants in place", func(w *things, v int) []any {
		var r []any
		for _, s := range []curve.EccScalar{curve.Scalar.Zero(fx.K), curve.Scalar.One(fx.K), curve.Scalar.FromUint64(fx.K, 7), curve.Scalar.FromNodeIndex(fx.K, 5)} {
			r = append(r, s.Serialize())
			s.Add(s, w.S[v])
			r = append(r, s.Serialize())
		}
		for _, p := range []curve.EccPoint{curve.Point.Identity(fx.K), curve.Point.GeneratorG(fx.K), curve.Point.GeneratorH(fx.K), curve.Point.MulByG(w.S[0])} {
			r = append(r, p.Serialize())
			p.AddPoints(p, w.P[v])
			p.ScalarMul(p, w.S[v])
			r = append(r, p.Serialize())
		}
		F := curve.Field
		for _, f := range []curve.EccFieldElement{F.Zero(fx.K), F.One(fx.K), F.A(fx.K), F.B(fx.K), F.SswuA(fx.K), F.SswuB(fx.K), F.SswuZ(fx.K), F.SswuC2(fx.K)} {
			r = append(r, f.AsBytes())
			f.Add(f, w.F[v])
			f.Mul(f, f)
			r = append(r, f.AsBytes())
		}
		return r
	})
	add("use results in place", func(w *things, v int) []any {
		h := must(curve.Point.HashToPoint(fx.K, w.Msg, w.Dst))
		h.Double(h)
		s := must(curve.Scalar.HashToScalar(fx.K, w.Msg, w.Dst))
		s.Negate(s)
		f := must(curve.HashToField(1, fx.K, w.Msg, w.Dst))
		f[0].Square(f[0])
		x := w.P[v].AffineX()
		x.Add(x, x)
		b := w.S[v].Serialize()
		for i := range b {
			b[i] ^= 0xff
		}
		pb := w.P[v].Serialize()
		for i := range pb {
			pb[i] ^= 0xff
		}
		n := w.S[v].BigInt()
		n.SetInt64(3)
		ev := w.Com[v].EvaluateAt(2)
		ev.Double(ev)
		pe := w.Poly[v].EvaluateAt(w.S[0])
		pe.Negate(pe)
		return all(h, s, f, x, b, pb, ev, pe)
	})
	return out
}
