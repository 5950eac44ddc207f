package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/sign"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

// quintuple is everything a signature needs: key, presignature, their mask and
// the two masked products.
type quintuple struct {
	key, kappa, lambda, kl, xl *sharing
}

// newQuintuple draws consistent sharings with threshold t.
func newQuintuple(e Env, label string, t int) *quintuple {
	q := &quintuple{
		key:    newSharing(e, label+" key", false, t),
		kappa:  newSharing(e, label+" kappa", false, t),
		lambda: newSharing(e, label+" lambda", true, t),
		kl:     newSharing(e, label+" kappa*lambda", true, t),
		xl:     newSharing(e, label+" key*lambda", true, t),
	}
	q.lambda.summed = true
	set := func(s *sharing, v *big.Int) {
		s.v[0] = v
		s.com = ref.Commit(s.v, s.m, t)
	}
	set(q.kl, ref.Mul(q.kappa.v[0], q.lambda.v[0]))
	set(q.xl, ref.Mul(q.key.v[0], q.lambda.v[0]))
	return q
}

func cachedQuintuple(e Env, label string, t int) *quintuple {
	k := fmt.Sprint("quintuple", e.Seed, label, t)
	if v, ok := sharingCache.Load(k); ok {
		return v.(*quintuple)
	}
	q := newQuintuple(e, label, t)
	sharingCache.Store(k, q)
	return q
}

func two(v []*big.Int) [2]*big.Int { return [2]*big.Int{v[0], v[1]} }

// refShare is the published share of a signer.
func (q *quintuple) refShare(r ref.Request, i int) (num, den [2]*big.Int) {
	return r.SigShare(q.key.com[0], q.kappa.com[0], two(q.lambda.share(i)), two(q.kl.share(i)), two(q.xl.share(i)))
}

// libShare computes the share with the library.
func (q *quintuple) libShare(r ref.Request, i int, form int) (*sign.ThresholdEcdsaSigShareInternal, error) {
	o := fx.Opening
	if form == 1 {
		o = fx.OpeningPtr
	}
	return sign.NewThresholdEcdsaSigShareInternal(fx.Path(r.Path), r.Hash, r.Randomness, q.key.transcript(), q.kappa.transcript(),
		o(q.lambda.share(i)), o(q.kl.share(i)), o(q.xl.share(i)), fx.K)
}

// refSignature is the signature all quorums must produce.
func (q *quintuple) refSignature(r ref.Request) (rr, s *big.Int, high bool) {
	rho, tweak, rnd, _ := r.Rho(q.key.com[0], q.kappa.com[0])
	k := ref.Add(q.kappa.v[0], rnd)
	x := ref.Add(q.key.v[0], tweak)
	raw := ref.Mul(ref.Add(ref.HashToInt(r.Hash), ref.Mul(rho, x)), ref.Inv(k))
	s = ref.LowS(raw)
	return rho, s, s.Cmp(raw) != 0
}

func showRequest(r ref.Request) string {
	return fmt.Sprintf("hash %s, randomness %s, path %s", short(r.Hash), short(r.Randomness), pathName(r.Path))
}

// requests lists message hashes, randomness and paths; one of each varies
// against a default, and some vary together.
func requests(e Env) []ref.Request {
	seq := func(n, k int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*k + 3)
		}
		return b
	}
	def := ref.Request{Hash: seq(32, 5), Randomness: seq(32, 9), Path: [][]byte{{0, 0, 0, 1}, {0, 0, 0, 2}}}
	out := []ref.Request{def}
	nb := ref.Bytes32(ref.N)
	hashes := [][]byte{{}, {0}, {1}, seq(20, 3), seq(31, 3), seq(33, 3), seq(48, 3), seq(64, 3), make([]byte, 32), bytes.Repeat([]byte{255}, 32), nb,
		ref.Bytes32(ref.Neg(ref.I(1))), append(append([]byte{}, nb...), 1), bytes.Repeat([]byte{255}, 64), make([]byte, 64), ref.Bytes32(ref.I(1))}
	for _, h := range hashes {
		r := def
		r.Hash = h
		out = append(out, r)
	}
	for _, x := range [][]byte{{}, {0}, seq(31, 1), seq(64, 1), seq(255, 1), seq(256, 1), seq(300, 1), make([]byte, 32)} {
		r := def
		r.Randomness = x
		out = append(out, r)
	}
	for _, p := range [][][]byte{nil, {{}}, {{0}}, {{0, 0, 0, 0}}, {{255, 255, 255, 255}}, {seq(32, 1)}, {seq(300, 1)}, {{1}, {2}, {3}, {4}}, {{0, 0, 0, 2}, {0, 0, 0, 1}}} {
		r := def
		r.Path = p
		out = append(out, r)
	}
	out = append(out, ref.Request{}, ref.Request{Hash: seq(64, 7), Randomness: seq(300, 3), Path: [][]byte{seq(40, 3), {}}})
	for i := 0; i < Pick(e, 6, 60); i++ { // half of these have a high s before normalisation
		r := def
		r.Hash = ref.Bytes32(randScalar(e, "message", i))
		r.Randomness = ref.Bytes32(randScalar(e, "randomness", i))
		out = append(out, r)
	}
	return out
}

// requestEdits lists requests which differ from r in one argument.
func requestEdits(r ref.Request) []struct {
	name string
	r    ref.Request
} {
	type ne = struct {
		name string
		r    ref.Request
	}
	var out []ne
	edits := func(name string, b []byte, put func(x *ref.Request, b []byte)) {
		try := func(what string, v []byte) {
			if bytes.Equal(v, b) {
				return
			}
			x := r
			put(&x, v)
			out = append(out, ne{name + " " + what, x})
		}
		flip := func(i int) {
			if i >= 0 && i < len(b) {
				v := append([]byte{}, b...)
				v[i] ^= 1
				try(fmt.Sprintf("byte %d changed", i), v)
			}
		}
		for _, i := range []int{0, len(b) / 2, 31, 32, 33, 254, 255, 256, len(b) - 1} {
			flip(i)
		}
		try("extended by a zero", append(append([]byte{}, b...), 0))
		try("prefixed by a zero", append([]byte{0}, b...))
		if len(b) > 0 {
			try("truncated", append([]byte{}, b[:len(b)-1]...))
			try("without its first byte", append([]byte{}, b[1:]...))
			top := append([]byte{}, b...)
			top[0] ^= 0x80
			try("top bit changed", top)
		}
		try("empty", []byte{})
	}
	edits("hash", r.Hash, func(x *ref.Request, b []byte) { x.Hash = b })
	edits("randomness", r.Randomness, func(x *ref.Request, b []byte) { x.Randomness = b })
	path := func(name string, p [][]byte) {
		out = append(out, ne{"path " + name, ref.Request{Hash: r.Hash, Randomness: r.Randomness, Path: p}})
	}
	cp := func() [][]byte {
		var p [][]byte
		for _, x := range r.Path {
			p = append(p, append([]byte{}, x...))
		}
		return p
	}
	path("extended", append(cp(), []byte{0}))
	path("prefixed", append([][]byte{{7}}, cp()...))
	if n := len(r.Path); n > 0 {
		path("shortened", cp()[:n-1])
		path("without its first index", cp()[1:])
		p := cp()
		p[n-1] = append(p[n-1], 0)
		path("last index extended", p)
		p = cp()
		p[0] = append([]byte{0}, p[0]...)
		path("first index prefixed", p)
		for i := range r.Path {
			if len(r.Path[i]) > 0 {
				p = cp()
				p[i][len(p[i])-1] ^= 1
				path(fmt.Sprintf("index %d changed", i), p)
			}
		}
		if n > 1 {
			p = cp()
			p[0], p[1] = p[1], p[0]
			path("first two indices exchanged", p)
			p = cp()
			p[0] = append(p[0], p[1]...)
			path("first two indices joined", append(p[:1], p[2:]...))
		}
	}
	return out
}

// transcriptEdits lists other transcripts in place of one: kind 0 keeps it.
func transcriptEdit(k int, s *sharing, other *sharing) (string, *sharing) {
	x := *s
	x.com = append([]ref.P{}, s.com...)
	switch k {
	case 0:
		x.com[0] = x.com[0].Add(ref.G)
		return "constant +G", &x
	case 1:
		x.com[0] = x.com[0].Neg()
		return "constant negated", &x
	case 2:
		x.com[len(x.com)-1] = x.com[len(x.com)-1].Add(ref.H)
		return "last point +H", &x
	case 3:
		x.com = append(x.com, ref.G)
		return "longer", &x
	case 4:
		if len(x.com) > 1 {
			x.com = x.com[:len(x.com)-1]
		}
		return "shorter", &x
	case 5:
		x.com = append([]ref.P{}, other.com...)
		return "another transcript's commitment", &x
	case 6:
		x.ped = !x.ped
		return "of the other kind", &x
	case 7:
		x.summed = !x.summed
		return "in the other form", &x
	}
	x.com = append(x.com, ref.P{})
	return "extended by the identity", &x
}

const transcriptEdits = 9

// presigOK is the form of a presignature transcript which signing accepts.
func presigOK(s *sharing) bool { return !s.ped && !s.summed }

// expectShare tells whether a share is right for a signer under transcripts
// (which need not have known secrets).
func (q *quintuple) expectShare(r ref.Request, i int, num, den [2]*big.Int) bool {
	if !presigOK(q.kappa) {
		return false
	}
	rho, tweak, rnd, _ := r.Rho(q.key.com[0], q.kappa.com[0])
	theta := ref.Add(ref.HashToInt(r.Hash), ref.Mul(rho, tweak))
	l := ref.CommitAt(q.lambda.com, i)
	wantN := l.Mul(theta).Add(ref.CommitAt(q.xl.com, i).Mul(rho))
	wantD := l.Mul(rnd).Add(ref.CommitAt(q.kl.com, i))
	return wantN.Equal(ref.Pedersen(num[0], num[1])) && wantD.Equal(ref.Pedersen(den[0], den[1]))
}

// expectSignature tells whether (rr, s) is the signature of a request.
func (q *quintuple) expectSignature(r ref.Request, rr, s *big.Int) bool {
	if !presigOK(q.kappa) || s.Cmp(ref.HalfN) > 0 {
		return false
	}
	rho, tweak, _, _ := r.Rho(q.key.com[0], q.kappa.com[0])
	return rho.Cmp(rr) == 0 && ref.VerifyECDSA(q.key.com[0].Add(ref.MulG(tweak)), r.Hash, rr, s)
}

// verifyShareLib verifies a share with the library.
func (q *quintuple) verifyShareLib(c *explore.Ctx, s *sign.ThresholdEcdsaSigShareInternal, r ref.Request, i int) error {
	h, okh := fx.Canary(r.Hash)
	rn, okr := fx.Canary(r.Randomness)
	err := s.Verify(fx.Path(r.Path), h, rn, common.NodeIndex(i), q.key.transcript(), q.kappa.transcript(), q.lambda.transcript(), q.kl.transcript(), q.xl.transcript(), fx.K)
	c.Check(okh() && okr(), "input changed", "verification changes the hash or the randomness")
	return err
}

// checkShare compares share verification.
func (q *quintuple) checkShare(c *explore.Ctx, what string, r ref.Request, i int, num, den [2]*big.Int) {
	s := fx.LShare(num, den)
	want := q.expectShare(r, i, num, den)
	err := q.verifyShareLib(c, s, r, i)
	c.Check((err == nil) == want, "verdict", "%s: %s, want accepted=%v", what, errStr(err), want)
	c.Outcome(want)
	c.Eval(1)
}

func (q *quintuple) libSignature(r ref.Request, t int, shares map[int]*sign.ThresholdEcdsaSigShareInternal) (*sign.ThresholdEcdsaCombinedSigInternal, error) {
	return sign.NewThresholdEcdsaCombinedSigInternal(fx.Path(r.Path), r.Hash, r.Randomness, q.key.transcript(), q.kappa.transcript(), t, shareMap(shares), fx.K)
}

// clone copies a sharing's polynomials so that they can be changed.
func (s *sharing) clone() *sharing {
	n := *s
	n.v = append(ref.Poly{}, s.v...)
	n.m = append(ref.Poly{}, s.m...)
	return &n
}

// solveSignature changes the key so that the signature on r, which must have
// no path, is exactly s before normalisation.
func (q quintuple) solveSignature(r ref.Request, s *big.Int) *quintuple {
	rho, tweak, rnd, _ := r.Rho(q.key.com[0], q.kappa.com[0])
	if tweak.Sign() != 0 {
		panic("harness: no derivation shifts the key")
	}
	k := ref.Add(q.kappa.v[0], rnd)
	x := ref.Mul(ref.Sub(ref.Mul(s, k), ref.HashToInt(r.Hash)), ref.Inv(rho))
	q.key, q.xl = q.key.clone(), q.xl.clone()
	q.key.v[0] = x
	q.key.com = ref.Commit(q.key.v, nil, len(q.key.v))
	q.xl.v[0] = ref.Mul(x, q.lambda.v[0])
	q.xl.com = ref.Commit(q.xl.v, q.xl.m, len(q.xl.v))
	return &q
}

// solvedParts counts the ways of solveShare.
const solvedParts = 9

// solveShare changes the non-constant coefficients of the masked products so
// that the share of signer i is exceptional; the shared values stay.
func (q quintuple) solveShare(r ref.Request, i, way int) (*quintuple, string) {
	num, den := q.refShare(r, i)
	rho, _, _, _ := r.Rho(q.key.com[0], q.kappa.com[0])
	q.kl, q.xl = q.kl.clone(), q.xl.clone()
	at := ref.Inv(ref.I(int64(i) + 1))
	setNum := func(p ref.Poly, have, want *big.Int) {
		p[1] = ref.Add(p[1], ref.Mul(ref.Mul(ref.Sub(want, have), ref.Inv(rho)), at))
	}
	setDen := func(p ref.Poly, have, want *big.Int) { p[1] = ref.Add(p[1], ref.Mul(ref.Sub(want, have), at)) }
	zero := ref.I(0)
	name := ""
	switch way {
	case 0:
		name = "numerator value zero"
		setNum(q.xl.v, num[0], zero)
	case 1:
		name = "numerator mask zero"
		setNum(q.xl.m, num[1], zero)
	case 2:
		name = "numerator zero"
		setNum(q.xl.v, num[0], zero)
		setNum(q.xl.m, num[1], zero)
	case 3:
		name = "denominator value zero"
		setDen(q.kl.v, den[0], zero)
	case 4:
		name = "denominator mask zero"
		setDen(q.kl.m, den[1], zero)
	case 5:
		name = "denominator zero"
		setDen(q.kl.v, den[0], zero)
		setDen(q.kl.m, den[1], zero)
	case 6:
		name = "all zero"
		setNum(q.xl.v, num[0], zero)
		setNum(q.xl.m, num[1], zero)
		setDen(q.kl.v, den[0], zero)
		setDen(q.kl.m, den[1], zero)
	case 7:
		name = "numerator and denominator equal"
		setNum(q.xl.v, num[0], den[0])
		setNum(q.xl.m, num[1], den[1])
	case 8:
		name = "numerator and denominator opposite"
		setNum(q.xl.v, num[0], ref.Neg(den[0]))
		setNum(q.xl.m, num[1], ref.Neg(den[1]))
	}
	q.kl.com = ref.Commit(q.kl.v, q.kl.m, len(q.kl.v))
	q.xl.com = ref.Commit(q.xl.v, q.xl.m, len(q.xl.v))
	return &q, name
}
