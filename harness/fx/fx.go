package fx

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"

	"verif/harness/ref"
)

const K = curve.K256

// S converts a scalar into the library's type.
func S(v *big.Int) curve.EccScalar {
	s, err := curve.Scalar.Deserialize(K, ref.Bytes32(ref.Mod(v)))
	if err != nil {
		panic("valid scalar encoding rejected: " + err.Error())
	}
	return s
}

// Ss converts several.
func Ss(vs []*big.Int) []curve.EccScalar {
	out := make([]curve.EccScalar, len(vs))
	for i, v := range vs {
		out[i] = S(v)
	}
	return out
}

// Pt converts a point into the library's type.
func Pt(p ref.P) curve.EccPoint {
	q, err := curve.Point.Deserialize(K, p.Bytes())
	if err != nil {
		panic("valid point encoding rejected: " + err.Error())
	}
	return q
}

func Pts(ps []ref.P) []curve.EccPoint {
	out := make([]curve.EccPoint, len(ps))
	for i, p := range ps {
		out[i] = Pt(p)
	}
	return out
}

// SEq and PEq compare a library object with a reference value.
func SEq(s curve.EccScalar, v *big.Int) bool {
	return s != nil && bytes.Equal(s.Serialize(), ref.Bytes32(v))
}
func PEq(p curve.EccPoint, q ref.P) bool { return p != nil && bytes.Equal(p.Serialize(), q.Bytes()) }

// BI reads a library scalar.
func BI(s curve.EccScalar) *big.Int { return new(big.Int).SetBytes(s.Serialize()) }

// RP reads a library point.
func RP(p curve.EccPoint) ref.P {
	q, ok := ref.DecodePoint(p.Serialize())
	if !ok {
		panic("library serialized an invalid point")
	}
	return q
}

// Rebase gives the same point with another internal (projective) representation.
func Rebase(p curve.EccPoint) curve.EccPoint {
	g := curve.Point.GeneratorG(K)
	q := p.Clone()
	q = q.AddPoints(q, g)
	return q.SubPoints(q, g)
}

// LSeed makes a library seed equal to a reference seed (which must come from
// SeedFromBytes of the same label).
func LSeed(label string) (*seed.Seed, ref.Seed) {
	return seed.FromBytes([]byte(label)), ref.SeedFromBytes([]byte(label))
}

// Opening converts reference values (one: simple, two: Pedersen).
func Opening(v []*big.Int) poly.CommitmentOpening {
	if len(v) == 1 {
		return poly.SimpleCommitmentOpening{S(v[0])}
	}
	return poly.PedersenCommitmentOpening{S(v[0]), S(v[1])}
}

// OpeningPtr is Opening as deserialization returns it.
func OpeningPtr(v []*big.Int) poly.CommitmentOpening {
	if len(v) == 1 {
		return &poly.SimpleCommitmentOpening{S(v[0])}
	}
	return &poly.PedersenCommitmentOpening{S(v[0]), S(v[1])}
}

// OpenVals reads an opening; nil when it has an unknown type.
func OpenVals(o poly.CommitmentOpening) []*big.Int {
	switch x := o.(type) {
	case poly.SimpleCommitmentOpening:
		return []*big.Int{BI(x[0])}
	case *poly.SimpleCommitmentOpening:
		return []*big.Int{BI(x[0])}
	case poly.PedersenCommitmentOpening:
		return []*big.Int{BI(x[0]), BI(x[1])}
	case *poly.PedersenCommitmentOpening:
		return []*big.Int{BI(x[0]), BI(x[1])}
	}
	return nil
}

// OpEq compares an opening with reference values.
func OpEq(o poly.CommitmentOpening, v []*big.Int) bool {
	if o == nil {
		return false
	}
	w := OpenVals(o)
	if len(w) != len(v) {
		return false
	}
	for i := range v {
		if w[i].Cmp(v[i]) != 0 {
			return false
		}
	}
	return true
}

// ShowOp prints an opening.
func ShowOp(o poly.CommitmentOpening) string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("%x", OpenVals(o))
}

// Commitment converts reference points.
func Commitment(pedersen bool, ps []ref.P) poly.PolynomialCommitment {
	if pedersen {
		return poly.PedersenCM.New(Pts(ps))
	}
	return poly.SimpleCM.New(Pts(ps))
}

// CommitEq compares a commitment with reference points.
func CommitEq(c poly.PolynomialCommitment, pedersen bool, ps []ref.P) bool {
	if c == nil || c.Len() != len(ps) || len(c.Points()) != len(ps) {
		return false
	}
	want := poly.Simple
	if pedersen {
		want = poly.Pedersen
	}
	if c.Type() != want {
		return false
	}
	for i, p := range c.Points() {
		if !PEq(p, ps[i]) {
			return false
		}
	}
	return true
}

// Node is a protocol participant.
type Node struct {
	Sk *big.Int
	Pk ref.P
	SK *mega.MEGaPrivateKey
	PK *mega.MEGaPublicKey
}

// Nodes makes n participants from a label.
func Nodes(label string, n int) []Node {
	out := make([]Node, n)
	rng := ref.SeedFromBytes([]byte(label)).Rng()
	for i := range out {
		sk := rng.Scalar()
		out[i] = NodeOf(sk)
	}
	return out
}

// NodeOf makes a participant with a given secret key.
func NodeOf(sk *big.Int) Node {
	pk := ref.MulG(sk)
	return Node{sk, pk, mega.NewMEGaPrivateKey(S(sk)), mega.NewMEGaPublicKey(Pt(pk))}
}

// Fresh returns a private copy of the library keys.
func (n Node) Fresh() Node {
	return Node{n.Sk, n.Pk, mega.NewMEGaPrivateKey(S(n.Sk)), mega.NewMEGaPublicKey(Pt(n.Pk))}
}

func PKs(ns []Node) []*mega.MEGaPublicKey {
	out := make([]*mega.MEGaPublicKey, len(ns))
	for i := range ns {
		out[i] = ns[i].PK
	}
	return out
}

func RPKs(ns []Node) []ref.P {
	out := make([]ref.P, len(ns))
	for i := range ns {
		out[i] = ns[i].Pk
	}
	return out
}

// LSecret converts the dealer's input.
func LSecret(s ref.Secret) dealings.SecretShares {
	switch s.Kind {
	case ref.KRandom:
		return &dealings.RandomSecret{}
	case ref.KUnmasked:
		return &dealings.ReshareOfUnmaskedSecret{S1: S(s.S[0])}
	case ref.KMasked:
		return &dealings.ReshareOfMaskedSecret{S1: S(s.S[0]), S2: S(s.S[1])}
	}
	return &dealings.UnmaskedTimesMaskedSecret{Left: S(s.S[0]), Right: [2]curve.EccScalar{S(s.S[1]), S(s.S[2])}}
}

// Deal creates a dealing with the library.
func Deal(sec ref.Secret, label string, t int, ns []Node, dealer int, ad []byte) (*dealings.IDkgDealingInternal, error) {
	s, _ := LSeed(label)
	return dealings.NewIDkgDealingInternal(LSecret(sec), K, s, t, PKs(ns), common.NodeIndex(dealer), ad)
}

// RefDeal is the reference dealing for the same label.
func RefDeal(sec ref.Secret, label string, t int, ns []Node, dealer int, ad []byte) *ref.Dealing {
	_, s := LSeed(label)
	return ref.NewDealing(sec, s, t, RPKs(ns), dealer, ad)
}

// RefShape draws only the polynomials.
func RefShape(sec ref.Secret, label string, t int) *ref.Dealing {
	_, s := LSeed(label)
	return ref.Shape(sec, s, t)
}

// scalarSet is the multiset of scalars in an object, in canonical order.
func scalarSet(v any) string {
	var out []string
	for _, l := range Leaves(v) {
		if l.Point {
			out = append(out, fmt.Sprintf("p%x", l.Pt().Serialize()))
		} else {
			out = append(out, fmt.Sprintf("s%x", l.Scalar().Serialize()))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func refSet(ps []ref.P, ss ...*big.Int) string {
	var out []string
	for _, p := range ps {
		out = append(out, fmt.Sprintf("p%x", p.Bytes()))
	}
	for _, s := range ss {
		out = append(out, fmt.Sprintf("s%x", ref.Bytes32(s)))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// SameParts checks that an object holds exactly the given points and scalars.
func SameParts(v any, ps []ref.P, ss ...*big.Int) bool { return scalarSet(v) == refSet(ps, ss...) }

// CipherDiff compares a ciphertext with the reference; "" when equal.
func CipherDiff(c mega.MEGaCiphertext, r ref.Cipher) string {
	if !PEq(c.Ephemeral(), r.Eph) {
		return "ephemeral key"
	}
	if !PEq(c.PopPublic(), r.PopPub) {
		return "proof-of-possession public key"
	}
	if !SameParts(c.Proof(), nil, r.Pop.C, r.Pop.R) {
		return "proof of possession"
	}
	if c.Recipients() != len(r.CT) {
		return "number of recipients"
	}
	switch x := c.(type) {
	case *mega.MEGaCiphertextSingle:
		if r.Kind != ref.Single || c.CType() != mega.CiphertextSingle {
			return "kind"
		}
		for i := range x.CTexts {
			if !SEq(x.CTexts[i], r.CT[i][0]) {
				return fmt.Sprintf("ciphertext %d", i)
			}
		}
	case *mega.MEGaCiphertextPair:
		if r.Kind != ref.Pair || c.CType() != mega.CiphertextPairs {
			return "kind"
		}
		for i := range x.CTexts {
			for j := range x.CTexts[i] {
				if !SEq(x.CTexts[i][j], r.CT[i][j]) {
					return fmt.Sprintf("ciphertext %d.%d", i, j)
				}
			}
		}
	default:
		return fmt.Sprintf("type %T", c)
	}
	return ""
}

// DealingDiff compares a dealing with the reference; "" when equal.
func DealingDiff(d *dealings.IDkgDealingInternal, r *ref.Dealing) string {
	if !CommitEq(d.Commitment, r.Pedersen(), r.Commit) {
		return "commitment"
	}
	if s := CipherDiff(d.Ciphertext, r.Cipher); s != "" {
		return s
	}
	switch {
	case r.EqProof != nil:
		p, ok := d.Proof.(*dealings.MaskedResharingProof)
		if !ok || p.Type() != dealings.ProofOfMaskedResharing || !SameParts(p, nil, r.EqProof.C, r.EqProof.R) {
			return "resharing proof"
		}
	case r.ProdProof != nil:
		p, ok := d.Proof.(*dealings.ProductProof)
		if !ok || p.Type() != dealings.ProofOfProduct || !SameParts(p, nil, r.ProdProof.C, r.ProdProof.R1, r.ProdProof.R2) {
			return "product proof"
		}
	default:
		if d.Proof != nil {
			return "unexpected proof"
		}
	}
	return ""
}

// LDealing converts a reference dealing into a library object, with proofs
// built field by field from a template proof of the library.
func LCipher(r ref.Cipher) mega.MEGaCiphertext {
	pop := LDlog(r.Pop)
	if r.Kind == ref.Single {
		c := &mega.MEGaCiphertextSingle{EphemeralKey: Pt(r.Eph), PopPublicKey: Pt(r.PopPub), PopProof: pop}
		for _, x := range r.CT {
			c.CTexts = append(c.CTexts, S(x[0]))
		}
		return c
	}
	c := &mega.MEGaCiphertextPair{EphemeralKey: Pt(r.Eph), PopPublicKey: Pt(r.PopPub), PopProof: pop}
	for _, x := range r.CT {
		c.CTexts = append(c.CTexts, [2]curve.EccScalar{S(x[0]), S(x[1])})
	}
	return c
}

// role finds which leaf of a proof is which by creating a known proof.
func role(v any, want []*big.Int) []int {
	ls := Leaves(v)
	out := make([]int, len(want))
	for i, w := range want {
		out[i] = -1
		for j, l := range ls {
			if !l.Point && SEq(l.Scalar(), w) {
				out[i] = j
			}
		}
		if out[i] < 0 {
			panic("a proof created by the library does not have the published value")
		}
	}
	return out
}

type template struct {
	once  sync.Once
	obj   any
	roles []int
}

// LDlog, LEqOpen and LProduct build library proofs holding the given scalars.
var tDlog, tEq, tProd template

func LDlog(d ref.Dlog) *zk.ProofOfDLogEquivalence {
	tDlog.once.Do(func() {
		ls, rs := LSeed("proof template")
		p, err := zk.ProofOfDLogEquivalenceIns.Create(ls, S(ref.I(5)), Pt(ref.G), Pt(ref.H), nil)
		if err != nil {
			panic(err)
		}
		t := ref.ProveDlog(rs, ref.I(5), ref.G, ref.H, nil)
		tDlog.roles = role(p, []*big.Int{t.C, t.R})
		tDlog.obj = p
	})
	p := DeepCopy(tDlog.obj.(*zk.ProofOfDLogEquivalence))
	setRoles(p, tDlog.roles, []*big.Int{d.C, d.R})
	return p
}

func LEqOpen(d ref.EqOpen) *zk.ProofOfEqualOpenings {
	tEq.once.Do(func() {
		ls, rs := LSeed("proof template")
		p, err := zk.ProofOfEqualOpeningsIns.Create(ls, S(ref.I(5)), S(ref.I(7)), nil)
		if err != nil {
			panic(err)
		}
		t := ref.ProveEqOpen(rs, ref.I(5), ref.I(7), nil)
		tEq.roles = role(p, []*big.Int{t.C, t.R})
		tEq.obj = p
	})
	p := DeepCopy(tEq.obj.(*zk.ProofOfEqualOpenings))
	setRoles(p, tEq.roles, []*big.Int{d.C, d.R})
	return p
}

func LProduct(d ref.Product) *zk.ProofOfProduct {
	tProd.once.Do(func() {
		ls, rs := LSeed("proof template")
		p, err := zk.ProofOfProductIns.Create(ls, S(ref.I(5)), S(ref.I(7)), S(ref.I(9)), S(ref.I(35)), S(ref.I(11)), nil)
		if err != nil {
			panic(err)
		}
		t := ref.ProveProduct(rs, ref.I(5), ref.I(7), ref.I(9), ref.I(35), ref.I(11), nil)
		tProd.roles = role(p, []*big.Int{t.C, t.R1, t.R2})
		tProd.obj = p
	})
	p := DeepCopy(tProd.obj.(*zk.ProofOfProduct))
	setRoles(p, tProd.roles, []*big.Int{d.C, d.R1, d.R2})
	return p
}

func setRoles(p any, roles []int, vals []*big.Int) {
	ls := Leaves(p)
	for i, r := range roles {
		ls[r].SetScalar(S(vals[i]))
	}
}

// LDeal converts a whole reference dealing.
func LDeal(r *ref.Dealing) *dealings.IDkgDealingInternal {
	d := &dealings.IDkgDealingInternal{Ciphertext: LCipher(r.Cipher), Commitment: Commitment(r.Pedersen(), r.Commit)}
	if r.EqProof != nil {
		d.Proof = &dealings.MaskedResharingProof{ProofOfEqualOpenings: LEqOpen(*r.EqProof)}
	}
	if r.ProdProof != nil {
		d.Proof = &dealings.ProductProof{ProofOfProduct: LProduct(*r.ProdProof)}
	}
	return d
}

// DealMap builds the library's ordered map.
func DealMap(m map[int]*dealings.IDkgDealingInternal) *btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal] {
	out := &btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]{}
	for k, v := range m {
		out.Set(common.NodeIndex(k), v)
	}
	return out
}

// OpenMap builds the library's ordered map of openings.
func OpenMap(m map[int]poly.CommitmentOpening) *btree.Map[common.NodeIndex, poly.CommitmentOpening] {
	out := &btree.Map[common.NodeIndex, poly.CommitmentOpening]{}
	for k, v := range m {
		out.Set(common.NodeIndex(k), v)
	}
	return out
}

// Path converts a derivation path.
func Path(p [][]byte) *key.DerivationPath {
	idx := make([]key.DerivationIndex, len(p))
	for i := range p {
		idx[i] = append(key.DerivationIndex{}, p[i]...)
	}
	return key.New(idx)
}

// Subsets lists all subsets of 0..n-1 with between lo and hi members, smallest first.
func Subsets(n, lo, hi int) [][]int {
	var out [][]int
	for m := 0; m < 1<<n; m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) >= lo && len(s) <= hi {
			out = append(out, s)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) < len(out[j]) })
	return out
}

// Canary returns a slice with the given content whose spare capacity is filled
// with a pattern, and a function telling whether the whole backing array is unchanged.
func Canary(b []byte) ([]byte, func() bool) {
	back := make([]byte, len(b)+96)
	copy(back, b)
	for i := len(b); i < len(back); i++ {
		back[i] = 0xA5
	}
	orig := append([]byte{}, back...)
	return back[:len(b)], func() bool { return bytes.Equal(back, orig) }
}

var tShare template

// LShare builds a library signature share holding the given numerator and
// denominator (value, mask).
func LShare(num, den [2]*big.Int) *sign.ThresholdEcdsaSigShareInternal {
	tShare.once.Do(func() {
		two := func(a, b int64) [2]*big.Int { return [2]*big.Int{ref.I(a), ref.I(b)} }
		l, kl, xl := two(5, 7), two(11, 13), two(17, 19)
		q := ref.Request{Hash: []byte("template hash"), Randomness: []byte("template")}
		tr := func(p ref.P) *dealings.IDkgTranscriptInternal {
			return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: Commitment(false, []ref.P{p})}}
		}
		s, err := sign.NewThresholdEcdsaSigShareInternal(Path(nil), q.Hash, q.Randomness, tr(ref.G), tr(ref.H), Opening(l[:]), Opening(kl[:]), Opening(xl[:]), K)
		if err != nil {
			panic(err)
		}
		n, d := q.SigShare(ref.G, ref.H, l, kl, xl)
		tShare.roles = role(s, []*big.Int{n[0], n[1], d[0], d[1]})
		tShare.obj = s
	})
	s := DeepCopy(tShare.obj.(*sign.ThresholdEcdsaSigShareInternal))
	setRoles(s, tShare.roles, []*big.Int{num[0], num[1], den[0], den[1]})
	return s
}

// B2I is 1 for true.
func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}
