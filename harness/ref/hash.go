package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"sort"
)

// Xmd is expand_message_xmd of RFC 9380 with SHA-256; nil when too long.
func Xmd(msg, dst []byte, n int) []byte {
	if n > 255*32 {
		return nil
	}
	if len(dst) > 255 {
		h := sha256.Sum256(append([]byte("H2C-OVERSIZE-DST-"), dst...))
		dst = h[:]
	}
	dstPrime := append(append([]byte{}, dst...), byte(len(dst)))
	var in []byte
	in = append(in, make([]byte, 64)...)
	in = append(in, msg...)
	in = append(in, byte(n>>8), byte(n), 0)
	in = append(in, dstPrime...)
	b0 := sha256.Sum256(in)
	var out []byte
	prev := make([]byte, 32)
	for i := 1; len(out) < n; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ prev[j]
		}
		x = append(x, byte(i))
		x = append(x, dstPrime...)
		h := sha256.Sum256(x)
		prev = h[:]
		out = append(out, prev...)
	}
	return out[:n]
}

func hashMod(count int, msg, dst []byte, m *big.Int) []*big.Int {
	u := Xmd(msg, dst, count*48)
	if u == nil {
		return nil
	}
	out := make([]*big.Int, count)
	for i := range out {
		v := new(big.Int).SetBytes(u[i*48 : i*48+48])
		out[i] = v.Mod(v, m)
	}
	return out
}

// HashToScalars and HashToField follow hash_to_field with L = 48.
func HashToScalars(count int, msg, dst []byte) []*big.Int { return hashMod(count, msg, dst, N) }
func HashToField(count int, msg, dst []byte) []*big.Int   { return hashMod(count, msg, dst, FP) }

var (
	isoA = hx("3F8731ABDD661ADCA08A5558F0F5D272E953D363CB6F0E5D405447C01A444533")
	isoB = I(1771)
	sswZ = fmod(I(-11))
	k1   = []*big.Int{ // x_num, ascending
		hx("8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7"),
		hx("07d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581"),
		hx("534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262"),
		hx("8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c")}
	k2 = []*big.Int{
		hx("d35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b"),
		hx("edadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14"), I(1)}
	k3 = []*big.Int{
		hx("4bda12f684bda12f684bda12f684bda12f684bda12f684bda12f684b8e38e23c"),
		hx("c75e0c32d5cb7c0fa9d0a54b12a0a6d5647ab046d686da6fdffc90fc201d71a3"),
		hx("29a6194691f91a73715209ef6512e576722830a201be2018a765e85a9ecee931"),
		hx("2f684bda12f684bda12f684bda12f684bda12f684bda12f684bda12f38e38d84")}
	k4 = []*big.Int{
		hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffff93b"),
		hx("7a06534bb8bdb49fd5e9e6632722c2989467c1bfc8e8d978dfb425d2685c2573"),
		hx("6484aa716545ca2cf3a70c3fa8fe337e0a3d21162f0d6299a7bf8192bfd2a76f"), I(1)}
)

func fm(a, b *big.Int) *big.Int { return fmod(new(big.Int).Mul(a, b)) }
func fa(a, b *big.Int) *big.Int { return fmod(new(big.Int).Add(a, b)) }
func finv(a *big.Int) *big.Int {
	if a.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(a, FP)
}
func evalF(k []*big.Int, x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(k) - 1; i >= 0; i-- {
		r = fa(fm(r, x), k[i])
	}
	return r
}

// MapToCurve is the simplified SWU map of RFC 9380 section 6.6.2 followed by
// the 3-isogeny of appendix E.1.
func MapToCurve(u *big.Int) P {
	zu2 := fm(sswZ, fm(u, u))
	tv := fa(fm(zu2, zu2), zu2)
	tv1 := finv(tv)
	x1 := fm(fm(fmod(new(big.Int).Neg(isoB)), finv(isoA)), fa(one, tv1))
	if tv1.Sign() == 0 {
		x1 = fm(isoB, finv(fm(sswZ, isoA)))
	}
	g := func(x *big.Int) *big.Int { return fa(fa(fm(fm(x, x), x), fm(isoA, x)), isoB) }
	x := x1
	y, ok := FSqrt(g(x1))
	if !ok {
		x = fm(zu2, x1)
		y, ok = FSqrt(g(x))
		if !ok {
			panic("sswu: neither candidate is a square")
		}
	}
	if u.Bit(0) != y.Bit(0) {
		y = fmod(new(big.Int).Neg(y))
	}
	xd, yd := evalF(k2, x), evalF(k4, x)
	if xd.Sign() == 0 || yd.Sign() == 0 {
		return P{}
	}
	return P{fm(evalF(k1, x), finv(xd)), fm(y, fm(evalF(k3, x), finv(yd)))}
}

// HashToCurve is hash_to_curve (random oracle variant).
func HashToCurve(msg, dst []byte) P {
	u := HashToField(2, msg, dst)
	return MapToCurve(u[0]).Add(MapToCurve(u[1]))
}

// RO is the structured random oracle.
type RO struct {
	dst    string
	inputs map[string][]byte
}

func NewRO(dst string) *RO { return &RO{dst, map[string][]byte{}} }

// Add encodes one typed input.
func (r *RO) Add(name string, ty byte, data []byte) *RO {
	e := []byte{byte(len(name))}
	e = append(e, name...)
	e = append(e, ty)
	e = binary.BigEndian.AppendUint32(e, uint32(len(data)))
	e = append(e, data...)
	r.inputs[name] = e
	return r
}
func (r *RO) Bytes(name string, data []byte) *RO { return r.Add(name, 1, data) }
func (r *RO) Int(name string, v uint64) *RO {
	return r.Add(name, 2, binary.BigEndian.AppendUint64(nil, v))
}
func (r *RO) Point(name string, p P) *RO { return r.Add(name, 3, p.Tagged()) }
func (r *RO) Scalar(name string, s *big.Int) *RO {
	return r.Add(name, 4, append([]byte{1}, Bytes32(s)...))
}

// Input is the concatenation in the order of the names.
func (r *RO) Input() []byte {
	names := make([]string, 0, len(r.inputs))
	for n := range r.inputs {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []byte
	for _, n := range names {
		out = append(out, r.inputs[n]...)
	}
	return out
}
func (r *RO) Scalars(n int) []*big.Int {
	return HashToScalars(n, r.Input(), []byte(r.dst+"-secp256k1"))
}
func (r *RO) Scalar1() *big.Int     { return r.Scalars(1)[0] }
func (r *RO) OutPoint() P           { return HashToCurve(r.Input(), []byte(r.dst+"-secp256k1")) }
func (r *RO) OutBytes(n int) []byte { return Xmd(r.Input(), []byte(r.dst), n) }

// Seed is a 32-byte seed value.
type Seed []byte

func NewSeed(in []byte, dst string) Seed { return Xmd(in, []byte(dst), 32) }
func SeedFromBytes(b []byte) Seed        { return NewSeed(b, "ic-crypto-seed-from-bytes") }
func (s Seed) Derive(label string) Seed  { return NewSeed(s, label) }
func (s Seed) Rng() *Rng                 { return NewRng(s) }
func (s Seed) Scalar() *big.Int          { return s.Rng().Scalar() }

// Rng is the ChaCha20 key stream with a zero nonce, counter from zero.
type Rng struct {
	key [8]uint32
	ctr uint32
	buf []byte
}

func NewRng(key []byte) *Rng {
	r := &Rng{}
	for i := range r.key {
		r.key[i] = binary.LittleEndian.Uint32(key[4*i:])
	}
	return r
}

func (r *Rng) block() {
	rotl := func(v uint32, n uint) uint32 { return v<<n | v>>(32-n) }
	in := [16]uint32{0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}
	copy(in[4:12], r.key[:])
	in[12] = r.ctr
	s := in
	qr := func(a, b, c, d int) {
		s[a] += s[b]
		s[d] = rotl(s[d]^s[a], 16)
		s[c] += s[d]
		s[b] = rotl(s[b]^s[c], 12)
		s[a] += s[b]
		s[d] = rotl(s[d]^s[a], 8)
		s[c] += s[d]
		s[b] = rotl(s[b]^s[c], 7)
	}
	for i := 0; i < 10; i++ {
		qr(0, 4, 8, 12)
		qr(1, 5, 9, 13)
		qr(2, 6, 10, 14)
		qr(3, 7, 11, 15)
		qr(0, 5, 10, 15)
		qr(1, 6, 11, 12)
		qr(2, 7, 8, 13)
		qr(3, 4, 9, 14)
	}
	for i := range s {
		r.buf = binary.LittleEndian.AppendUint32(r.buf, s[i]+in[i])
	}
	r.ctr++
}

// Next returns the next n bytes of the stream.
func (r *Rng) Next(n int) []byte {
	for len(r.buf) < n {
		r.block()
	}
	out := append([]byte{}, r.buf[:n]...)
	r.buf = append([]byte{}, r.buf[n:]...)
	return out
}

// Scalar draws by rejection.
func (r *Rng) Scalar() *big.Int {
	for {
		v := new(big.Int).SetBytes(r.Next(32))
		if v.Cmp(N) < 0 {
			return v
		}
	}
}
