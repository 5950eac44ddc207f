// Package ref is an independent reference implementation of everything the
// library computes: plain math/big arithmetic, btcec for scalar multiplication,
// and the published algorithms written out straightforwardly. It shares no code
// with the library under test.
package ref

import (
	"encoding/hex"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
)

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

var (
	// FP is the field prime, N the group order.
	FP = hx("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	N  = hx("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	// HalfN is floor(N/2); a scalar is high when it is above it.
	HalfN = new(big.Int).Rsh(N, 1)
	one   = big.NewInt(1)
	curve = btcec.S256()
)

// I makes a big integer.
func I(v int64) *big.Int { return big.NewInt(v) }

// Mod reduces modulo the group order.
func Mod(v *big.Int) *big.Int { return new(big.Int).Mod(v, N) }

// Scalar arithmetic modulo the group order.
func Add(a, b *big.Int) *big.Int { return Mod(new(big.Int).Add(a, b)) }
func Sub(a, b *big.Int) *big.Int { return Mod(new(big.Int).Sub(a, b)) }
func Mul(a, b *big.Int) *big.Int { return Mod(new(big.Int).Mul(a, b)) }
func Neg(a *big.Int) *big.Int    { return Mod(new(big.Int).Neg(a)) }

// Inv is the inverse modulo the group order, zero for zero.
func Inv(a *big.Int) *big.Int {
	if a.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(a, N)
}

// Bytes32 is the fixed-length big-endian encoding.
func Bytes32(v *big.Int) []byte {
	return v.FillBytes(make([]byte, 32))
}

// P is a point in affine coordinates; X is nil for the identity.
type P struct{ X, Y *big.Int }

// Identity, generators.
func Identity() P { return P{} }

var (
	G = P{hx("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), hx("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
	H = mustPoint("037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59")
)

func mustPoint(s string) P {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	p, ok := DecodePoint(b)
	if !ok {
		panic("bad point constant")
	}
	return p
}

func (p P) IsIdentity() bool { return p.X == nil }

func (p P) Equal(q P) bool {
	if p.X == nil || q.X == nil {
		return p.X == nil && q.X == nil
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func fmod(v *big.Int) *big.Int { return new(big.Int).Mod(v, FP) }

// Add is the affine group law.
func (p P) Add(q P) P {
	if p.X == nil {
		return q
	}
	if q.X == nil {
		return p
	}
	var lam *big.Int
	if p.X.Cmp(q.X) == 0 {
		if fmod(new(big.Int).Add(p.Y, q.Y)).Sign() == 0 {
			return P{}
		}
		num := new(big.Int).Mul(I(3), new(big.Int).Mul(p.X, p.X))
		den := new(big.Int).ModInverse(fmod(new(big.Int).Lsh(p.Y, 1)), FP)
		lam = fmod(num.Mul(num, den))
	} else {
		num := new(big.Int).Sub(q.Y, p.Y)
		den := new(big.Int).ModInverse(fmod(new(big.Int).Sub(q.X, p.X)), FP)
		lam = fmod(num.Mul(num, den))
	}
	x := new(big.Int).Mul(lam, lam)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x = fmod(x)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, lam)
	y.Sub(y, p.Y)
	return P{x, fmod(y)}
}

func (p P) Neg() P {
	if p.X == nil {
		return p
	}
	return P{p.X, fmod(new(big.Int).Neg(p.Y))}
}

func (p P) Sub(q P) P { return p.Add(q.Neg()) }

// Mul multiplies by a scalar (btcec).
func (p P) Mul(k *big.Int) P {
	k = Mod(k)
	if p.X == nil || k.Sign() == 0 {
		return P{}
	}
	if k.Cmp(one) == 0 {
		return p
	}
	x, y := curve.ScalarMult(p.X, p.Y, k.Bytes())
	if x.Sign() == 0 && y.Sign() == 0 {
		return P{}
	}
	return P{x, y}
}

// MulG multiplies the generator.
func MulG(k *big.Int) P {
	k = Mod(k)
	if k.Sign() == 0 {
		return P{}
	}
	x, y := curve.ScalarBaseMult(k.Bytes())
	return P{x, y}
}

// Pedersen is v*G + m*H.
func Pedersen(v, m *big.Int) P { return MulG(v).Add(H.Mul(m)) }

// Bytes is the 33-byte compressed encoding, all zero for the identity.
func (p P) Bytes() []byte {
	out := make([]byte, 33)
	if p.X == nil {
		return out
	}
	out[0] = byte(2 + p.Y.Bit(0))
	p.X.FillBytes(out[1:])
	return out
}

// Tagged is the curve tag followed by the compressed encoding.
func (p P) Tagged() []byte { return append([]byte{1}, p.Bytes()...) }

// Uncompressed is the 65-byte encoding (33 zero bytes for the identity).
func (p P) Uncompressed() []byte {
	if p.X == nil {
		return make([]byte, 33)
	}
	out := make([]byte, 65)
	out[0] = 4
	p.X.FillBytes(out[1:33])
	p.Y.FillBytes(out[33:])
	return out
}

// FSqrt is a square root in the field, ok false when there is none.
func FSqrt(v *big.Int) (*big.Int, bool) {
	e := new(big.Int).Add(FP, one)
	e.Rsh(e, 2)
	r := new(big.Int).Exp(v, e, FP)
	if fmod(new(big.Int).Mul(r, r)).Cmp(fmod(v)) != 0 {
		return nil, false
	}
	return r, true
}

// OnCurve checks y^2 = x^3 + 7 for reduced coordinates.
func OnCurve(x, y *big.Int) bool {
	r := new(big.Int).Exp(x, I(3), FP)
	r.Add(r, I(7))
	return fmod(r).Cmp(fmod(new(big.Int).Mul(y, y))) == 0
}

func lift(xb []byte, odd uint) (P, bool) {
	x := new(big.Int).SetBytes(xb)
	if x.Cmp(FP) >= 0 {
		return P{}, false
	}
	r := new(big.Int).Exp(x, I(3), FP)
	r.Add(r, I(7))
	y, ok := FSqrt(fmod(r))
	if !ok {
		return P{}, false
	}
	if y.Bit(0) != odd {
		y = fmod(new(big.Int).Neg(y))
	}
	return P{x, y}, true
}

// DecodePoint decodes the 33-byte format (compressed or all-zero identity).
func DecodePoint(b []byte) (P, bool) {
	if len(b) != 33 {
		return P{}, false
	}
	zero := true
	for _, v := range b {
		zero = zero && v == 0
	}
	if zero {
		return P{}, true
	}
	if b[0] != 2 && b[0] != 3 {
		return P{}, false
	}
	return lift(b[1:], uint(b[0]&1))
}

// DecodeAny decodes the SEC1 style formats: identity (one zero byte),
// compressed, uncompressed and compact (even y).
func DecodeAny(b []byte) (P, bool) {
	if len(b) == 0 {
		return P{}, false
	}
	switch {
	case b[0] == 0 && len(b) == 1:
		return P{}, true
	case (b[0] == 2 || b[0] == 3) && len(b) == 33:
		return lift(b[1:], uint(b[0]&1))
	case b[0] == 5 && len(b) == 33:
		return lift(b[1:], 0)
	case b[0] == 4 && len(b) == 65:
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if x.Cmp(FP) >= 0 || y.Cmp(FP) >= 0 || !OnCurve(x, y) {
			return P{}, false
		}
		return P{x, y}, true
	}
	return P{}, false
}

// MulPoints is a*p + b*q.
func MulPoints(p P, a *big.Int, q P, b *big.Int) P { return p.Mul(a).Add(q.Mul(b)) }
