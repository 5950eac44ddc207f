package checks

import (
	"bytes"
	"crypto"
	"crypto/sha512"
	"fmt"
	"hash"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/sign"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	crypto.RegisterHash(crypto.SHA512, func() hash.Hash { return &answerHash{h: sha512.New()} })
	register(&Check{
		ID:    "C20",
		Level: "exploration",
		Rule: "one execution is one derivation of a path from a master key, possibly with chosen answers of the keyed hash (so that offsets above the order and children at infinity occur), or " +
			"one index increment; every result is compared with an independent implementation; distinct means distinct inputs and answers",
		Assume: []string{"the keyed hash is used as a black box: its chosen answers stand for inputs nobody can find", "math/big and btcec are correct"},
		Spaces: c20Spaces,
	})
}

// answerHash is SHA-512 whose final digest can be replaced: the environment of
// the key derivation under the explorer's control.
type answerHash struct{ h hash.Hash }

// answers holds the chosen digests by goroutine, so that executions do not mix.
var (
	answers  sync.Map
	nAnswers atomic.Int32
)

func goroutineID() string {
	var b [32]byte
	return strings.Fields(string(b[:runtime.Stack(b[:], false)]))[1]
}

func (a *answerHash) Write(p []byte) (int, error) { return a.h.Write(p) }
func (a *answerHash) Reset()                      { a.h.Reset() }
func (a *answerHash) Size() int                   { return a.h.Size() }
func (a *answerHash) BlockSize() int              { return a.h.BlockSize() }
func (a *answerHash) Sum(b []byte) []byte {
	d := a.h.Sum(nil)
	if nAnswers.Load() > 0 {
		if m, ok := answers.Load(goroutineID()); ok {
			if f, ok := m.(map[string][]byte)[string(d)]; ok {
				d = f
			}
		}
	}
	return append(b, d...)
}

// withAnswers runs f while the keyed hash gives the chosen answers.
func withAnswers(m map[string][]byte, f func()) {
	id := goroutineID()
	answers.Store(id, m)
	nAnswers.Add(1)
	defer func() {
		answers.Delete(id)
		nAnswers.Add(-1)
	}()
	f()
}

// answersUsed tells whether the library's key derivation consults the
// replaceable hash (it could use another constructor just as well).
func answersUsed() (used bool) {
	path := [][]byte{[]byte("probe")}
	want := ref.Bytes32(ref.I(77))
	withAnswers(map[string][]byte{string(ref.HMAC512(make([]byte, 32), ref.G.Bytes(), path[0])): append(want, make([]byte, 32)...)}, func() {
		defer func() { recover() }()
		t, _, err := fx.Path(path).DeriveTweak(fx.Pt(ref.G))
		used = err == nil && fx.SEq(t, ref.I(77))
	})
	return
}

func pathName(p [][]byte) string {
	if len(p) > 8 {
		return fmt.Sprintf("of %d indices from %s to %s", len(p), pathName(p[:2]), pathName(p[len(p)-2:]))
	}
	s := make([]string, len(p))
	for i, x := range p {
		s[i] = short(x)
	}
	return "[" + strings.Join(s, " / ") + "]"
}

// checkDerivation derives with the library in both ways and compares.
func checkDerivation(c *explore.Ctx, pk ref.P, rebased bool, path [][]byte, tweak *big.Int, chain []byte) {
	idx := make([]key.DerivationIndex, len(path))
	var intact []func() bool
	for i := range path {
		b, ok := fx.Canary(path[i])
		idx[i] = b
		intact = append(intact, ok)
	}
	dp := key.New(idx)
	lpk := fx.Pt(pk)
	if rebased {
		lpk = fx.Rebase(lpk)
	}
	what := fmt.Sprintf("path %s from %x", pathName(path), pk.Bytes())
	for round := 0; round < 2; round++ {
		got, gc, err := dp.DeriveTweak(lpk)
		c.Check(err == nil, "derivation fails", "%s (round %d): %v", what, round, err)
		c.Check(fx.SEq(got, tweak), "tweak", "%s (round %d): tweak %x, want %x", what, round, got.Serialize(), ref.Bytes32(tweak))
		c.Check(bytes.Equal(gc, chain), "chain key", "%s (round %d): chain key %x, want %x", what, round, gc, chain)
		for i := range gc {
			gc[i] ^= 0xff
		}
		got.Add(got, got)
		c.Check(fx.PEq(lpk, pk), "input changed", "%s: the public key was changed", what)
		for i, ok := range intact {
			c.Check(ok(), "input changed", "%s: index %d (or the memory behind it) was changed", what, i)
		}
	}
	enc, eok := fx.Canary(pk.Bytes())
	m := &key.MasterEcdsaPublicKey{PublicKey: enc}
	d, err := sign.DerivePublicKey(m, dp)
	want := pk.Add(ref.MulG(tweak))
	c.Check(err == nil && d != nil, "derivation fails", "%s: DerivePublicKey: %v", what, err)
	c.Check(bytes.Equal(d.PublicKey, want.Bytes()), "public key", "%s: derived key %x, want %x", what, d.PublicKey, want.Bytes())
	c.Check(bytes.Equal(d.ChainKey, chain), "chain key", "%s: chain key %x, want %x", what, d.ChainKey, chain)
	c.Check(eok(), "input changed", "%s: the master key was changed", what)
	c.Eval(7)
}

func c20Spaces(e Env) []*explore.Space {
	type master struct {
		d *big.Int
		p ref.P
	}
	var masters []master
	for _, d := range []*big.Int{ref.I(1), randScalar(e, "master", 0), ref.Neg(ref.I(1)), ref.I(2), ref.HalfN} {
		masters = append(masters, master{d, ref.MulG(d)})
	}
	idx := [][]byte{{}, {0}, {1}, {0xff}, {0, 0, 0, 0}, {0, 0, 0, 1}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {1, 0, 0, 0, 0}, filled(2, 29), filled(1, 32), filled(2, 33), filled(2, 94), filled(2, 95), filled(2, 127), filled(1, 255), filled(2, 256), filled(2, 1000)}
	depth := 3
	longPaths := []int{63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000}
	longIndices := []int{4096, 65535, 65536, 65537, 1 << 20}
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "paths", Bound: fmt.Sprintf("every path of length 0..%d over %d indices (0 to 1000 bytes) from %s master keys", depth, len(idx), Pick(e, "2", "5")),
		Run: func(c *explore.Ctx) {
			m := masters[c.Choose("master", Pick(e, 2, 5))]
			n := c.Choose("length", depth+1)
			path := make([][]byte, n)
			for i := range path {
				path[i] = idx[c.Choose("index", len(idx))]
			}
			c.Key(m.d, pathName(path))
			tweak, chain := ref.DeriveTweak(m.p, path, nil)
			checkDerivation(c, m.p, n%2 == 1, path, tweak, chain)
		},
	}, &explore.Space{
		Name: "index-lengths", Bound: "one index of every length 0..300 in 3 contents, or of 4096, 65535..65537 or 2^20 bytes; paths of 1..40 equal indices; all master keys; paths of 63..65, 127..129, 254..257 and 1000 indices, equal or counting, from " + Pick(e, "one master key", "all master keys"),
		Run: func(c *explore.Ctx) {
			k := c.Choose("master", len(masters))
			m := masters[k]
			var path [][]byte
			if k < Pick(e, 1, 5) && c.Bool("very long path") {
				k, n := c.Choose("index", 5), longPaths[c.Choose("length", len(longPaths))]
				for i := 0; i < n; i++ {
					x := []byte{0, 0, byte(i >> 8), byte(i)}
					if k < 4 {
						x = idx[k]
					}
					path = append(path, x)
				}
			} else if c.Bool("long path") {
				x := idx[c.Choose("index", 4)]
				for i := 1 + c.Choose("length", 40); i > 0; i-- {
					path = append(path, x)
				}
			} else if c.Bool("long index") {
				path = [][]byte{filled(c.Choose("content", 3), longIndices[c.Choose("index length", len(longIndices))])}
			} else {
				path = [][]byte{filled(c.Choose("content", 3), c.Choose("index length", 301))}
			}
			c.Key(m.d, pathName(path))
			tweak, chain := ref.DeriveTweak(m.p, path, nil)
			checkDerivation(c, m.p, c.Bool("rebased"), path, tweak, chain)
		},
	}, &explore.Space{
		Name: "bip32-paths", Bound: "NewBip32 for every path of length 0..3 over 7 indices, against the 4 byte big-endian encoding",
		Run: func(c *explore.Ctx) {
			ns := []uint32{0, 1, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			n := c.Choose("length", 4)
			var l []uint32
			var path [][]byte
			for i := 0; i < n; i++ {
				v := ns[c.Choose("index", len(ns))]
				l = append(l, v)
				path = append(path, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
			}
			m := masters[1]
			tweak, chain := ref.DeriveTweak(m.p, path, nil)
			p := key.NewBip32(l)
			for i := range l {
				l[i] = 99
			}
			got, gc, err := p.DeriveTweak(fx.Pt(m.p))
			c.Check(err == nil && fx.SEq(got, tweak) && bytes.Equal(gc, chain), "bip32 path", "path %s: %v", pathName(path), err)
		},
	})
	// chosen answers of the keyed hash
	ones := bytes.Repeat([]byte{0xff}, 32)
	nplus := ref.Bytes32(new(big.Int).Add(ref.N, big.NewInt(1)))
	fdepth := Pick(e, 2, 3)
	used := answersUsed()
	findex := [][]byte{{}, {0, 0, 0, 0}, {0xff}, {0xff, 0xff, 0xff, 0xff}, filled(1, 32), {0, 0xff, 0xff}}
	sp = append(sp, &explore.Space{
		Name:  "chosen-hash-answers",
		Bound: fmt.Sprintf("paths of 1..%d indices out of %d, every answer of the keyed hash out of {actual, order, order+1, all ones, infinity child, 0, 1, order-1}, up to 3 (longer paths: 2) invalid answers in a path; consulted: %v", fdepth, len(findex), used),
		Run: func(c *explore.Ctx) {
			if !used {
				c.Note("the derivation does not use the replaceable hash constructor: nothing to choose")
				return
			}
			m := masters[c.Choose("master", 2)]
			n := 1 + c.Choose("length", fdepth)
			retries := 3
			if n > 1 {
				retries = Pick(e, 2, 4-n/2)
			}
			path := make([][]byte, n)
			for i := range path {
				k := len(findex)
				if i > 0 {
					k = 2
				}
				path[i] = findex[c.Choose("index", k)]
			}
			table := map[string][]byte{}
			dlog := map[string]*big.Int{string(m.p.Bytes()): m.d}
			bad, total := 0, 0
			var log []string
			prf := func(k []byte, parts ...[]byte) []byte {
				real := ref.HMAC512(k, parts...)
				total++
				d := dlog[string(parts[0])]
				nch := 8
				if bad >= retries {
					nch = 1
				} else if n > 1 {
					nch = 6
				}
				var left []byte
				a := c.Choose("answer", nch)
				switch a {
				case 0:
					left = real[:32]
				case 1:
					left = ref.Bytes32(ref.N)
				case 2:
					left = nplus
				case 3:
					left = ones
				case 4:
					left = ref.Bytes32(ref.Neg(d))
				case 5:
					left = make([]byte, 32)
				case 6:
					left = ref.Bytes32(ref.I(1))
				case 7:
					left = ref.Bytes32(ref.Neg(ref.I(1)))
				}
				log = append(log, fmt.Sprintf("hash of index %s answers %x", short(parts[1]), left))
				out := append(append([]byte{}, left...), real[32:]...)
				table[string(real)] = out
				off := new(big.Int).SetBytes(left)
				child := ref.Add(d, off)
				if off.Cmp(ref.N) >= 0 || child.Sign() == 0 {
					bad++
				} else {
					dlog[string(ref.MulG(child).Bytes())] = child
				}
				return out
			}
			tweak, chain := ref.DeriveTweak(m.p, path, prf)
			for _, l := range log {
				c.Note("%s", l)
			}
			c.Key(m.d, pathName(path), fmt.Sprint(log))
			c.Step(total)
			withAnswers(table, func() { checkDerivation(c, m.p, false, path, tweak, chain) })
		},
	})
	// increments
	sp = append(sp, &explore.Space{
		Name: "increment", Bound: "all indices of up to 2 bytes" + Pick(e, "", " and of 3 bytes") + "; every carry pattern up to 40 bytes",
		Run: func(c *explore.Ctx) {
			do := func(in []byte) {
				b, ok := fx.Canary(in)
				got := key.DerivationIndex(b).Next()
				want := ref.NextIndex(in)
				if !bytes.Equal(got, want) {
					c.Fail("increment", "%x increments to %x, want %x", in, []byte(got), want)
				}
				for i := range got {
					got[i] ^= 0xff
				}
				c.Check(ok(), "input changed", "index %x was changed by Next", in)
				c.Eval(1)
			}
			switch c.Choose("family", Pick(e, 3, 4)) {
			case 0:
				do(nil)
				do([]byte{})
				for i := 0; i < 256; i++ {
					do([]byte{byte(i)})
				}
			case 1:
				hi := c.Choose("high byte", 256)
				for i := 0; i < 256; i++ {
					do([]byte{byte(hi), byte(i)})
				}
			case 2:
				n := c.Choose("length", 40) + 1
				for lead := 0; lead <= n; lead++ {
					for tail := 0; lead+tail <= n; tail++ {
						for _, mid := range []byte{0, 1, 0x7f, 0x80, 0xfe} {
							b := bytes.Repeat([]byte{mid}, n)
							copy(b, make([]byte, lead))
							for i := n - tail; i < n; i++ {
								b[i] = 0xff
							}
							do(b)
						}
					}
				}
			case 3:
				hi := c.Choose("high byte", 256)
				for i := 0; i < 65536; i++ {
					do([]byte{byte(hi), byte(i >> 8), byte(i)})
				}
			}
		},
	}, &explore.Space{
		Name: "malformed-master-keys", Bound: "every prefix and every single-byte change of an encoded key, uncompressed and empty encodings",
		Run: func(c *explore.Ctx) {
			good := masters[1].p.Bytes()
			var b []byte
			switch c.Choose("family", 4) {
			case 0:
				b = good[:c.Choose("length", len(good))]
			case 1:
				b = append([]byte{}, good...)
				b[c.Choose("position", len(good))] ^= byte(1 + c.Choose("difference", 255))
			case 2:
				b = append(append([]byte{}, good...), 0)
			case 3:
				b = masters[1].p.Uncompressed()
			}
			c.Key(b)
			p, ok := ref.DecodePoint(b)
			d, err := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: b}, fx.Path([][]byte{{1}}))
			c.Check((err == nil) == ok, "acceptance", "master key %x: %s, want accepted=%v", b, errStr(err), ok)
			if ok && !p.IsIdentity() {
				t, chain := ref.DeriveTweak(p, [][]byte{{1}}, nil)
				c.Check(bytes.Equal(d.PublicKey, p.Add(ref.MulG(t)).Bytes()) && bytes.Equal(d.ChainKey, chain), "public key", "master key %x", b)
			}
		},
	}, &explore.Space{
		Name: "keyed-hash", Bound: "key lengths {0,1,32,64,127,128,129,200} x message splits into 0..3 parts of lengths {0,1,111,112,128,300}",
		Run: func(c *explore.Ctx) {
			kl := []int{0, 1, 32, 64, 127, 128, 129, 200}
			ml := []int{0, 1, 111, 112, 128, 300}
			k := filled(2, kl[c.Choose("key length", len(kl))])
			var parts [][]byte
			for i := c.Choose("parts", 4); i > 0; i-- {
				parts = append(parts, filled(2, ml[c.Choose("part length", len(ml))]))
			}
			c.Key(len(k), pathName(parts))
			got, err := key.ComputeHMAC(sha512.New, k, parts...)
			c.Check(err == nil && bytes.Equal(got, ref.HMAC512(k, parts...)), "keyed hash", "key %d bytes, parts %s: %x (%v)", len(k), pathName(parts), got, err)
		},
	})
	return sp
}
