package ref

import (
	"crypto/hmac"
	"crypto/sha512"
	"fmt"
	"math/big"
)

// Dlog is a proof of equal discrete logarithms.
type Dlog struct{ C, R *big.Int }

func dlogChallenge(g, h, gx, hx, c1, c2 P, ad []byte) *big.Int {
	return NewRO("ic-crypto-tecdsa-zk-proof-of-dlog-eq").Bytes("associated_data", ad).
		Point("instance_g", g).Point("instance_h", h).Point("instance_g_x", gx).Point("instance_h_x", hx).
		Point("commitment1", c1).Point("commitment2", c2).Scalar1()
}

// DlogChallenge is the challenge of the proof.
func DlogChallenge(g, h, gx, hx, c1, c2 P, ad []byte) *big.Int {
	return dlogChallenge(g, h, gx, hx, c1, c2, ad)
}

func ProveDlog(seed Seed, x *big.Int, g, h P, ad []byte) Dlog {
	r := seed.Scalar()
	c := dlogChallenge(g, h, g.Mul(x), h.Mul(x), g.Mul(r), h.Mul(r), ad)
	return Dlog{c, Add(Mul(x, c), r)}
}

func (d Dlog) Verify(g, h, gx, hx P, ad []byte) bool {
	c1 := g.Mul(d.R).Sub(gx.Mul(d.C))
	c2 := h.Mul(d.R).Sub(hx.Mul(d.C))
	return dlogChallenge(g, h, gx, hx, c1, c2, ad).Cmp(d.C) == 0
}

// EqOpen is a proof that a Pedersen and a simple commitment hide the same value.
type EqOpen struct{ C, R *big.Int }

func EqOpenChallenge(a, b, com P, ad []byte) *big.Int {
	return NewRO("ic-crypto-tecdsa-zk-proof-of-equal-openings").Bytes("associated_data", ad).
		Point("instance_g", G).Point("instance_h", H).Point("instance_a", a).Point("instance_b", b).
		Point("commitment", com).Scalar1()
}

func ProveEqOpen(seed Seed, secret, mask *big.Int, ad []byte) EqOpen {
	r := seed.Scalar()
	c := EqOpenChallenge(Pedersen(secret, mask), MulG(secret), H.Mul(r), ad)
	return EqOpen{c, Add(Mul(mask, c), r)}
}

func (p EqOpen) Verify(a, b P, ad []byte) bool {
	com := H.Mul(p.R).Sub(a.Sub(b).Mul(p.C))
	return EqOpenChallenge(a, b, com, ad).Cmp(p.C) == 0
}

// Product is a proof that a commitment hides the product of two others.
type Product struct{ C, R1, R2 *big.Int }

func ProductChallenge(lhs, rhs, prod, c1, c2 P, ad []byte) *big.Int {
	return NewRO("ic-crypto-tecdsa-zk-proof-of-product").Bytes("associated_data", ad).
		Point("instance_g", G).Point("instance_h", H).Point("instance_lhs", lhs).Point("instance_rhs", rhs).
		Point("instance_product", prod).Point("commitment1", c1).Point("commitment2", c2).Scalar1()
}

func ProveProduct(seed Seed, lhs, rhs, rhsMask, prod, prodMask *big.Int, ad []byte) Product {
	rng := seed.Rng()
	r1, r2 := rng.Scalar(), rng.Scalar()
	rhsCom := Pedersen(rhs, rhsMask)
	c := ProductChallenge(MulG(lhs), rhsCom, Pedersen(prod, prodMask), MulG(r1), rhsCom.Mul(r1).Add(H.Mul(r2)), ad)
	return Product{c, Add(Mul(lhs, c), r1), Add(Mul(Sub(prodMask, Mul(lhs, rhsMask)), c), r2)}
}

func (p Product) Verify(lhs, rhs, prod P, ad []byte) bool {
	c1 := MulG(p.R1).Sub(lhs.Mul(p.C))
	c2 := rhs.Mul(p.R1).Add(H.Mul(p.R2)).Sub(prod.Mul(p.C))
	return ProductChallenge(lhs, rhs, prod, c1, c2, ad).Cmp(p.C) == 0
}

// Ciphertext kinds.
const (
	Single = 1
	Pair   = 2
)

func kindName(kind int) string {
	if kind == Single {
		return "single"
	}
	return "pair"
}

// Cipher is a multi-recipient ciphertext.
type Cipher struct {
	Kind        int
	Eph, PopPub P
	Pop         Dlog
	CT          [][]*big.Int
}

// MegaMask is the hash which masks the plaintexts of one recipient.
func MegaMask(kind, dealer, recipient int, ad []byte, pk, eph, shared P) []*big.Int {
	return NewRO("ic-crypto-tecdsa-mega-encryption-"+kindName(kind)+"-encrypt").
		Int("dealer_index", uint64(dealer)).Int("recipient_index", uint64(recipient)).
		Bytes("associated_data", ad).Point("public_key", pk).Point("ephemeral_key", eph).
		Point("shared_secret", shared).Scalars(kind)
}

// PopBase is the base point of the proof of possession.
func PopBase(kind int, ad []byte, dealer int, eph P) P {
	return NewRO("ic-crypto-tecdsa-mega-encryption-"+kindName(kind)+"-pop-base").
		Bytes("associated_data", ad).Int("dealer_index", uint64(dealer)).
		Point("ephemeral_key", eph).OutPoint()
}

// Beta is the ephemeral secret of an encryption seed.
func Beta(kind int, seed Seed) *big.Int {
	return seed.Derive("ic-crypto-tecdsa-mega-encryption-" + kindName(kind) + "-ephemeral-key").Scalar()
}

// Encrypt encrypts plaintexts[i] (one or two scalars) to pks[i].
func Encrypt(kind int, seed Seed, plain [][]*big.Int, pks []P, dealer int, ad []byte) Cipher {
	return EncryptBeta(kind, Beta(kind, seed), seed.Derive("ic-crypto-tecdsa-mega-encryption-"+kindName(kind)+"-pop-proof"), plain, pks, dealer, ad)
}

// EncryptBeta is Encrypt with a chosen ephemeral secret.
func EncryptBeta(kind int, beta *big.Int, popSeed Seed, plain [][]*big.Int, pks []P, dealer int, ad []byte) Cipher {
	c := Cipher{Kind: kind, Eph: MulG(beta)}
	base := PopBase(kind, ad, dealer, c.Eph)
	c.PopPub = base.Mul(beta)
	c.Pop = ProveDlog(popSeed, beta, G, base, ad)
	for i, pk := range pks {
		m := MegaMask(kind, dealer, i, ad, pk, c.Eph, pk.Mul(beta))
		ct := make([]*big.Int, kind)
		for j := range ct {
			ct[j] = Add(m[j], plain[i][j])
		}
		c.CT = append(c.CT, ct)
	}
	return c
}

// PopOK checks the proof of possession.
func (c Cipher) PopOK(dealer int, ad []byte) bool {
	return c.Pop.Verify(G, PopBase(c.Kind, ad, dealer, c.Eph), c.Eph, c.PopPub, ad)
}

// DecryptShared removes the mask using a Diffie-Hellman value.
func (c Cipher) DecryptShared(dealer, recipient int, ad []byte, pk, shared P) []*big.Int {
	m := MegaMask(c.Kind, dealer, recipient, ad, pk, c.Eph, shared)
	out := make([]*big.Int, c.Kind)
	for j := range out {
		out[j] = Sub(c.CT[recipient][j], m[j])
	}
	return out
}

// Dealing kinds.
const (
	KRandom   = 0
	KUnmasked = 1
	KMasked   = 2
	KProduct  = 3
)

// Secret is the dealer's input to a dealing.
type Secret struct {
	Kind int
	S    []*big.Int // unmasked: s; masked: s, mask; product: left, right, right mask
}

// Dealing is a complete dealing with its hidden polynomials.
type Dealing struct {
	Kind         int
	Values, Mask Poly // Mask is nil for simple commitments
	Commit       []P
	Cipher       Cipher
	EqProof      *EqOpen
	ProdProof    *Product
}

// Pedersen tells the kind of the commitment.
func (d *Dealing) Pedersen() bool { return d.Mask != nil }

// Commit computes the commitment to a polynomial (pair).
func Commit(values, mask Poly, n int) []P {
	out := make([]P, n)
	for i := range out {
		if mask == nil {
			out[i] = MulG(values.Coeff(i))
		} else {
			out[i] = Pedersen(values.Coeff(i), mask.Coeff(i))
		}
	}
	return out
}

// CommitAt evaluates a commitment at a node index.
func CommitAt(points []P, node int) P {
	acc := P{}
	x := I(int64(node) + 1)
	for i := len(points) - 1; i >= 0; i-- {
		acc = acc.Mul(x).Add(points[i])
	}
	return acc
}

// NewDealing creates a dealing.
func NewDealing(sec Secret, seed Seed, t int, pks []P, dealer int, ad []byte) *Dealing {
	d := Shape(sec, seed, t)
	d.Commit = Commit(d.Values, d.Mask, t)
	d.Cipher = Encrypt(d.CipherKind(), seed.Derive("ic-crypto-tecdsa-create-dealing-mega-encrypt"), d.Plain(len(pks)), pks, dealer, ad)
	switch sec.Kind {
	case KMasked:
		p := ProveEqOpen(seed.Derive("ic-crypto-tecdsa-zk-proof-of-equal-openings"), sec.S[0], sec.S[1], ad)
		d.EqProof = &p
	case KProduct:
		p := ProveProduct(seed.Derive("ic-crypto-tecdsa-zk-proof-of-product"), sec.S[0], sec.S[1], sec.S[2], d.Values[0], d.Mask[0], ad)
		d.ProdProof = &p
	}
	return d
}

// CipherKind is the kind of ciphertext the dealing carries.
func (d *Dealing) CipherKind() int {
	if d.Mask == nil {
		return Single
	}
	return Pair
}

// Plain lists the plaintexts for n recipients.
func (d *Dealing) Plain(n int) [][]*big.Int {
	out := make([][]*big.Int, n)
	for i := range out {
		out[i] = d.Share(i)
	}
	return out
}

// Share is the opening of a receiver.
func (d *Dealing) Share(node int) []*big.Int {
	if d.Mask == nil {
		return []*big.Int{d.Values.At(node)}
	}
	return []*big.Int{d.Values.At(node), d.Mask.At(node)}
}

// Shape draws only the polynomials of a dealing.
func Shape(sec Secret, seed Seed, t int) *Dealing {
	rng := seed.Derive("ic-crypto-tecdsa-create-dealing-polynomials").Rng()
	random := func(c *big.Int) Poly {
		p := make(Poly, t)
		for i := range p {
			if i == 0 && c != nil {
				p[i] = c
			} else {
				p[i] = rng.Scalar()
			}
		}
		return p
	}
	d := &Dealing{Kind: sec.Kind}
	switch sec.Kind {
	case KRandom:
		d.Values = random(nil)
		d.Mask = random(nil)
	case KUnmasked, KMasked:
		d.Values = random(sec.S[0])
	case KProduct:
		pm := rng.Scalar()
		d.Values = random(Mul(sec.S[0], sec.S[1]))
		d.Mask = random(pm)
	}
	return d
}

// ComplaintAD is the associated data of a complaint's proof.
func ComplaintAD(ad []byte, receiver, dealer int, pk P) []byte {
	return NewRO("ic-crypto-tecdsa-complaint-proof-assoc-data").Bytes("associated_data", ad).
		Int("receiver_index", uint64(receiver)).Int("dealer_index", uint64(dealer)).
		Point("receiver_public_key", pk).OutBytes(32)
}

// ComplaintSeed is the seed of the complaint against a dealer.
func ComplaintSeed(seed Seed, dealer int) Seed {
	return seed.Derive(fmt.Sprintf("ic-crypto-tecdsa-complaint-against-%d", dealer))
}

// NewComplaint gives the shared secret and the proof.
func NewComplaint(seed Seed, eph P, dealer, receiver int, sk *big.Int, ad []byte) (P, Dlog) {
	return eph.Mul(sk), ProveDlog(seed, sk, G, eph, ComplaintAD(ad, receiver, dealer, MulG(sk)))
}

// HMAC512 is HMAC-SHA-512.
func HMAC512(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha512.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// NextIndex increments a big-endian index, growing on overflow.
func NextIndex(idx []byte) []byte {
	v := new(big.Int).Add(new(big.Int).SetBytes(idx), one)
	n := len(idx)
	if b := (v.BitLen() + 7) / 8; b > n {
		n = b
	}
	return v.FillBytes(make([]byte, n))
}

// DeriveTweak is extended BIP32 public derivation from an all-zero chain key.
// prf may replace the HMAC.
func DeriveTweak(pk P, path [][]byte, prf func(key []byte, parts ...[]byte) []byte) (*big.Int, []byte) {
	if prf == nil {
		prf = HMAC512
	}
	chain := make([]byte, 32)
	tweak := new(big.Int)
	for _, idx := range path {
		for {
			out := prf(chain, pk.Bytes(), idx)
			off := new(big.Int).SetBytes(out[:32])
			child := pk.Add(MulG(off))
			if off.Cmp(N) < 0 && !child.IsIdentity() {
				pk, chain, tweak = child, out[32:], Add(tweak, off)
				break
			}
			idx = NextIndex(idx)
		}
	}
	return tweak, chain
}

// HashToInt converts a message hash as ECDSA does (leftmost 32 bytes).
func HashToInt(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return Mod(new(big.Int).SetBytes(h))
}

// Randomizer is the presignature randomizer.
func Randomizer(randomness, hash []byte, presig P, tweak *big.Int) *big.Int {
	return NewRO("ic-crypto-tecdsa-rerandomize-presig").Bytes("randomness", randomness).
		Bytes("hashed_message", hash).Point("pre_sig", presig).Scalar("key_tweak", tweak).Scalar1()
}

// Request is everything a signing request depends on.
type Request struct {
	Hash, Randomness []byte
	Path             [][]byte
}

// Rho gives rho, the key tweak, the randomizer and the rerandomised presignature.
func (q Request) Rho(key, presig P) (rho, tweak, rnd *big.Int, pre P) {
	tweak, _ = DeriveTweak(key, q.Path, nil)
	rnd = Randomizer(q.Randomness, q.Hash, presig, tweak)
	pre = presig.Add(MulG(rnd))
	if pre.IsIdentity() {
		return new(big.Int), tweak, rnd, pre
	}
	return Mod(pre.X), tweak, rnd, pre
}

// SigShare computes numerator and denominator (value, mask) of a signer.
func (q Request) SigShare(key, presig P, lambda, kappaLambda, keyLambda [2]*big.Int) (num, den [2]*big.Int) {
	rho, tweak, rnd, _ := q.Rho(key, presig)
	theta := Add(HashToInt(q.Hash), Mul(rho, tweak))
	for i := range num {
		num[i] = Add(Mul(theta, lambda[i]), Mul(rho, keyLambda[i]))
		den[i] = Add(Mul(rnd, lambda[i]), kappaLambda[i])
	}
	return
}

// LowS normalises s.
func LowS(s *big.Int) *big.Int {
	if s.Cmp(HalfN) > 0 {
		return Neg(s)
	}
	return s
}

// VerifyECDSA is textbook ECDSA verification.
func VerifyECDSA(pk P, hash []byte, r, s *big.Int) bool {
	if pk.IsIdentity() || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	w := Inv(s)
	p := MulG(Mul(HashToInt(hash), w)).Add(pk.Mul(Mul(r, w)))
	return !p.IsIdentity() && Mod(p.X).Cmp(r) == 0
}
