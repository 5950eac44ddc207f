package checks

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

// sharing is a secret shared by a (masked) polynomial. Polynomials may be
// absent when only the commitment matters.
type sharing struct {
	ped     bool
	v, m    ref.Poly
	com     []ref.P
	summed  bool // the library wraps it as a sum, otherwise as an interpolation
	name    string
	openers int
}

// newSharing draws a sharing with threshold t.
func newSharing(e Env, label string, ped bool, t int) *sharing {
	s := &sharing{ped: ped, v: make(ref.Poly, t), name: label}
	for i := range s.v {
		s.v[i] = randScalar(e, "sharing", label, "v", i)
	}
	if ped {
		s.m = make(ref.Poly, t)
		for i := range s.m {
			s.m[i] = randScalar(e, "sharing", label, "m", i)
		}
	}
	s.com = ref.Commit(s.v, s.m, t)
	return s
}

func (s *sharing) t() int { return len(s.com) }

// share is the opening of a node.
func (s *sharing) share(i int) []*big.Int {
	if s.ped {
		return []*big.Int{s.v.At(i), s.m.At(i)}
	}
	return []*big.Int{s.v.At(i)}
}

func (s *sharing) lib() poly.PolynomialCommitment { return fx.Commitment(s.ped, s.com) }

// wrapped is the commitment as a transcript holds it.
func (s *sharing) wrapped() dealings.CombinedCommitment {
	if s.summed {
		return &dealings.SummationCommitment{PolynomialCommitment: s.lib()}
	}
	return &dealings.InterpolationCommitment{PolynomialCommitment: s.lib()}
}

func (s *sharing) transcript() *dealings.IDkgTranscriptInternal {
	return &dealings.IDkgTranscriptInternal{CombinedCommitment: s.wrapped()}
}

func (s *sharing) show() string { return showPoints(s.ped, s.com) }

// operation is what a transcript is created for.
type operation struct {
	kind   int
	p1, p2 *sharing
}

var kindNames = []string{"random", "reshare-unmasked", "reshare-masked", "product"}

// lib builds the library's operation; the source commitments are bare or, as
// they come out of a previous transcript, wrapped.
func (o operation) lib(wrap bool) dealings.IDkgTranscriptOperationInternal {
	c := func(s *sharing) poly.PolynomialCommitment {
		if wrap {
			return s.wrapped()
		}
		return s.lib()
	}
	switch o.kind {
	case ref.KRandom:
		return &dealings.RandomTranscript{}
	case ref.KUnmasked:
		return &dealings.ReshareOfUnmaskedTranscript{P1: c(o.p1)}
	case ref.KMasked:
		return &dealings.ReshareOfMaskedTranscript{P1: c(o.p1)}
	}
	return &dealings.UnmaskedTimesMaskedTranscript{Left: c(o.p1), Right: c(o.p2)}
}

// secret is a dealer's input.
func (o operation) secret(dealer int) ref.Secret {
	s := ref.Secret{Kind: o.kind}
	switch o.kind {
	case ref.KUnmasked, ref.KMasked:
		s.S = o.p1.share(dealer)
	case ref.KProduct:
		s.S = append(append([]*big.Int{}, o.p1.share(dealer)...), o.p2.share(dealer)...)
	}
	return s
}

// need is the number of dealings the operation requires.
func (o operation) need() int {
	switch o.kind {
	case ref.KUnmasked, ref.KMasked:
		return o.p1.t()
	case ref.KProduct:
		return o.p1.t() + o.p2.t() - 1
	}
	return 1
}

// newOperation makes an operation with fresh source sharings.
func newOperation(e Env, kind, t1, t2 int) operation {
	o := operation{kind: kind}
	switch kind {
	case ref.KUnmasked:
		o.p1 = newSharing(e, "unmasked source", false, t1)
	case ref.KMasked:
		o.p1 = newSharing(e, "masked source", true, t1)
		o.p1.summed = true
	case ref.KProduct:
		o.p1 = newSharing(e, "left source", false, t1)
		o.p2 = newSharing(e, "right source", true, t2)
		o.p2.summed = true
	}
	return o
}

// anyDealing is a dealing whose parts need not fit together.
type anyDealing struct {
	ped    bool
	com    []ref.P
	cipher ref.Cipher
	eq     *ref.EqOpen
	prod   *ref.Product
}

func fromRef(d *ref.Dealing) *anyDealing {
	return &anyDealing{d.Pedersen(), append([]ref.P{}, d.Commit...), d.Cipher, d.EqProof, d.ProdProof}
}

func (d *anyDealing) lib() *dealings.IDkgDealingInternal {
	l := &dealings.IDkgDealingInternal{Ciphertext: fx.LCipher(d.cipher), Commitment: fx.Commitment(d.ped, d.com)}
	if d.eq != nil {
		l.Proof = &dealings.MaskedResharingProof{ProofOfEqualOpenings: fx.LEqOpen(*d.eq)}
	}
	if d.prod != nil {
		l.Proof = &dealings.ProductProof{ProofOfProduct: fx.LProduct(*d.prod)}
	}
	return l
}

// public is the reference's public verification.
func (d *anyDealing) public(o operation, t, dealer, receivers int, ad []byte) bool {
	if len(d.com) != t || len(d.cipher.CT) != receivers || !d.cipher.PopOK(dealer, ad) {
		return false
	}
	simple := !d.ped && d.cipher.Kind == ref.Single
	masked := d.ped && d.cipher.Kind == ref.Pair
	none := d.eq == nil && d.prod == nil
	switch o.kind {
	case ref.KRandom:
		return masked && none
	case ref.KUnmasked:
		return simple && none && !o.p1.ped && ref.CommitAt(o.p1.com, dealer).Equal(d.com[0])
	case ref.KMasked:
		return simple && d.eq != nil && o.p1.ped && d.eq.Verify(ref.CommitAt(o.p1.com, dealer), d.com[0], ad)
	}
	return masked && d.prod != nil && !o.p1.ped && o.p2.ped &&
		d.prod.Verify(ref.CommitAt(o.p1.com, dealer), ref.CommitAt(o.p2.com, dealer), d.com[0], ad)
}

// plain is what a holder of sk reads as receiver i (which must exist).
func (d *anyDealing) plain(dealer, i int, ad []byte, sk *big.Int, pk ref.P) []*big.Int {
	return d.cipher.DecryptShared(dealer, i, ad, pk, d.cipher.Eph.Mul(sk))
}

// opens tells whether a plaintext is the opening at i.
func (d *anyDealing) opens(i int, plain []*big.Int) bool {
	at := ref.CommitAt(d.com, i)
	if d.ped != (len(plain) == 2) {
		return false
	}
	if d.ped {
		return at.Equal(ref.Pedersen(plain[0], plain[1]))
	}
	return at.Equal(ref.MulG(plain[0]))
}

// private is the reference's private verification.
func (d *anyDealing) private(dealer, i int, ad []byte, sk *big.Int, pk ref.P) bool {
	return i < len(d.cipher.CT) && d.ped == (d.cipher.Kind == ref.Pair) && d.cipher.PopOK(dealer, ad) && d.opens(i, d.plain(dealer, i, ad, sk, pk))
}

func lsk(sk *big.Int) *mega.MEGaPrivateKey { return mega.NewMEGaPrivateKey(fx.S(sk)) }
func lpk(pk ref.P) *mega.MEGaPublicKey     { return mega.NewMEGaPublicKey(fx.Pt(pk)) }

// checkPublic compares public verification.
func checkPublic(c *explore.Ctx, what string, l *dealings.IDkgDealingInternal, d *anyDealing, o operation, wrap bool, t, dealer, receivers int, ad []byte) bool {
	want := d.public(o, t, dealer, receivers, ad)
	in, intact := fx.Canary(ad)
	err := l.PubliclyVerify(fx.K, o.lib(wrap), t, common.NodeIndex(dealer), receivers, in)
	c.Check((err == nil) == want, "verdict", "%s, checked as %s with threshold %d, dealer %d, %d receivers: %s, want accepted=%v", what, kindNames[o.kind], t, dealer, receivers, errStr(err), want)
	c.Check(intact(), "input changed", "%s: the data was changed", what)
	c.Outcome(o.kind, want)
	c.Eval(1)
	return want
}

// checkPrivate compares private verification and opening.
func checkPrivate(c *explore.Ctx, what string, l *dealings.IDkgDealingInternal, d *anyDealing, dealer, i int, ad []byte, sk *big.Int, pk ref.P) bool {
	want := d.private(dealer, i, ad, sk, pk)
	in, intact := fx.Canary(ad)
	err := l.PrivateVerify(fx.K, lsk(sk), lpk(pk), in, common.NodeIndex(dealer), common.NodeIndex(i))
	c.Check((err == nil) == want, "verdict", "%s, receiver %d with dealer %d: %s, want accepted=%v", what, i, dealer, errStr(err), want)
	o, err := dealings.CommitmentOpening.OpenDealing(l, in, common.NodeIndex(dealer), common.NodeIndex(i), lsk(sk), lpk(pk))
	c.Check((err == nil) == want, "opening", "%s, receiver %d opens with dealer %d: %s, want accepted=%v", what, i, dealer, errStr(err), want)
	if want {
		p := d.plain(dealer, i, ad, sk, pk)
		c.Check(fx.OpEq(o, p), "opening", "%s: receiver %d opens %s, want %s", what, i, fx.ShowOp(o), hexes(p))
	} else {
		c.Check(o == nil, "opening", "%s: receiver %d gets an opening with an error", what, i)
	}
	c.Check(intact(), "input changed", "%s: the data was changed", what)
	c.Outcome(want)
	c.Eval(2)
	return want
}

// dealOne makes an honest dealing with library and reference and compares them.
func dealOne(c *explore.Ctx, what string, o operation, label string, t int, ns []fx.Node, dealer int, ad []byte) (*dealings.IDkgDealingInternal, *ref.Dealing) {
	sec := o.secret(dealer)
	in, intact := fx.Canary(ad)
	l, err := fx.Deal(sec, label, t, ns, dealer, in)
	c.Check(err == nil, "creation", "%s: %v", what, err)
	r := fx.RefDeal(sec, label, t, ns, dealer, ad)
	c.Check(fx.DealingDiff(l, r) == "", "dealing", "%s: %s is not the published one", what, fx.DealingDiff(l, r))
	c.Check(intact(), "input changed", "%s: the data was changed", what)
	return l, r
}

func dealName(kind, n, t int) string {
	return fmt.Sprintf("%s dealing for %d receivers with threshold %d", kindNames[kind], n, t)
}

var honestCache, operationCache, sharingCache sync.Map

// cachedOperation and cachedSharing avoid committing again and again (the
// results are never changed).
func cachedOperation(e Env, kind, t1, t2 int) operation {
	k := fmt.Sprint(e.Seed, kind, t1, t2)
	if v, ok := operationCache.Load(k); ok {
		return v.(operation)
	}
	o := newOperation(e, kind, t1, t2)
	operationCache.Store(k, o)
	return o
}

func cachedSharing(e Env, label string, ped bool, t int) *sharing {
	k := fmt.Sprint(e.Seed, label, ped, t)
	if v, ok := sharingCache.Load(k); ok {
		return v.(*sharing)
	}
	s := newSharing(e, label, ped, t)
	sharingCache.Store(k, s)
	return s
}
