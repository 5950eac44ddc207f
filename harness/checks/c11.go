package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/zk"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C11",
		Level: "fault_enumeration",
		Rule: "one execution is one proof (witness, statement, data, edits); the library's verdict is compared with an independent verifier, its proofs with independently computed ones scalar by scalar; " +
			"distinct means distinct (statement, data, proof) triples",
		Assume: []string{"SHA-256 and the reference group arithmetic are correct", "no accidental challenge collision (probability 2^-256 per edit)"},
		Spaces: c11Spaces,
	})
}

// zkKind is one proof system behind a common face.
type zkKind struct {
	name     string
	nw, np   int // witness scalars, statement points
	points   func(w []*big.Int) []ref.P
	create   func(label string, w []*big.Int, ad []byte) (any, error)
	refMake  func(label string, w []*big.Int, ad []byte) []*big.Int
	make     func(vals []*big.Int) any
	verify   func(p any, pts []curve.EccPoint, ad []byte) error
	refCheck func(vals []*big.Int, pts []ref.P, ad []byte) bool
	clone    func(p any) any
	nv       int // scalars in a proof
	ncom     int
	recover  func(p any, pts []curve.EccPoint) []curve.EccPoint
	refRec   func(vals []*big.Int, pts []ref.P) []ref.P
	hash     func(pts, com []curve.EccPoint, ad []byte) (curve.EccScalar, error)
	refHash  func(pts, com []ref.P, ad []byte) *big.Int
	// valid completes a witness so that the statement is true
	valid func(a []*big.Int) []*big.Int
	free  int // scalars valid needs
}

// The bases of the equal-logarithm proof are not fixed; these are used.
func dlogBases(w []*big.Int) (ref.P, ref.P) { return ref.MulG(w[1]), ref.H.Mul(w[2]) }

func zkKinds() []*zkKind {
	return []*zkKind{{
		name: "dlog", nw: 3, np: 4, nv: 2, ncom: 2, free: 3,
		valid: func(a []*big.Int) []*big.Int { return a },
		points: func(w []*big.Int) []ref.P {
			g, h := dlogBases(w)
			return []ref.P{g, h, g.Mul(w[0]), h.Mul(w[0])}
		},
		create: func(label string, w []*big.Int, ad []byte) (any, error) {
			s, _ := fx.LSeed(label)
			g, h := dlogBases(w)
			return zk.ProofOfDLogEquivalenceIns.Create(s, fx.S(w[0]), fx.Pt(g), fx.Pt(h), ad)
		},
		refMake: func(label string, w []*big.Int, ad []byte) []*big.Int {
			_, s := fx.LSeed(label)
			g, h := dlogBases(w)
			p := ref.ProveDlog(s, w[0], g, h, ad)
			return []*big.Int{p.C, p.R}
		},
		make: func(v []*big.Int) any { return fx.LDlog(ref.Dlog{C: v[0], R: v[1]}) },
		verify: func(p any, x []curve.EccPoint, ad []byte) error {
			return p.(*zk.ProofOfDLogEquivalence).Verify(x[0], x[1], x[2], x[3], ad)
		},
		refCheck: func(v []*big.Int, x []ref.P, ad []byte) bool {
			return ref.Dlog{C: v[0], R: v[1]}.Verify(x[0], x[1], x[2], x[3], ad)
		},
		clone: func(p any) any { return p.(*zk.ProofOfDLogEquivalence).Clone() },
		recover: func(p any, x []curve.EccPoint) []curve.EccPoint {
			a, b, err := must(zk.ProofOfDLogEquivalenceIns.FromCommitments(x[0], x[1], x[2], x[3])).RecoverCommitments(p.(*zk.ProofOfDLogEquivalence))
			if err != nil {
				panic(err)
			}
			return []curve.EccPoint{a, b}
		},
		refRec: func(v []*big.Int, x []ref.P) []ref.P {
			return []ref.P{x[0].Mul(v[1]).Sub(x[2].Mul(v[0])), x[1].Mul(v[1]).Sub(x[3].Mul(v[0]))}
		},
		hash: func(x, com []curve.EccPoint, ad []byte) (curve.EccScalar, error) {
			return must(zk.ProofOfDLogEquivalenceIns.FromCommitments(x[0], x[1], x[2], x[3])).HashToChallenge(com[0], com[1], ad)
		},
		refHash: func(x, com []ref.P, ad []byte) *big.Int {
			return ref.DlogChallenge(x[0], x[1], x[2], x[3], com[0], com[1], ad)
		},
	}, {
		name: "equal-openings", nw: 2, np: 2, nv: 2, ncom: 1, free: 2,
		valid: func(a []*big.Int) []*big.Int { return a },
		points: func(w []*big.Int) []ref.P {
			return []ref.P{ref.Pedersen(w[0], w[1]), ref.MulG(w[0])}
		},
		create: func(label string, w []*big.Int, ad []byte) (any, error) {
			s, _ := fx.LSeed(label)
			return zk.ProofOfEqualOpeningsIns.Create(s, fx.S(w[0]), fx.S(w[1]), ad)
		},
		refMake: func(label string, w []*big.Int, ad []byte) []*big.Int {
			_, s := fx.LSeed(label)
			p := ref.ProveEqOpen(s, w[0], w[1], ad)
			return []*big.Int{p.C, p.R}
		},
		make: func(v []*big.Int) any { return fx.LEqOpen(ref.EqOpen{C: v[0], R: v[1]}) },
		verify: func(p any, x []curve.EccPoint, ad []byte) error {
			return p.(*zk.ProofOfEqualOpenings).Verify(x[0], x[1], ad)
		},
		refCheck: func(v []*big.Int, x []ref.P, ad []byte) bool {
			return ref.EqOpen{C: v[0], R: v[1]}.Verify(x[0], x[1], ad)
		},
		clone: func(p any) any { return p.(*zk.ProofOfEqualOpenings).Clone() },
		recover: func(p any, x []curve.EccPoint) []curve.EccPoint {
			return []curve.EccPoint{zk.ProofOfEqualOpeningsIns.FromCommitments(x[0], x[1]).RecoverCommitments(p.(*zk.ProofOfEqualOpenings))}
		},
		refRec: func(v []*big.Int, x []ref.P) []ref.P {
			return []ref.P{ref.H.Mul(v[1]).Sub(x[0].Sub(x[1]).Mul(v[0]))}
		},
		hash: func(x, com []curve.EccPoint, ad []byte) (curve.EccScalar, error) {
			return zk.ProofOfEqualOpeningsIns.FromCommitments(x[0], x[1]).HashToChallenge(com[0], ad)
		},
		refHash: func(x, com []ref.P, ad []byte) *big.Int { return ref.EqOpenChallenge(x[0], x[1], com[0], ad) },
	}, {
		name: "product", nw: 5, np: 3, nv: 3, ncom: 2, free: 4,
		valid: func(a []*big.Int) []*big.Int { return []*big.Int{a[0], a[1], a[2], ref.Mul(a[0], a[1]), a[3]} },
		points: func(w []*big.Int) []ref.P {
			return []ref.P{ref.MulG(w[0]), ref.Pedersen(w[1], w[2]), ref.Pedersen(w[3], w[4])}
		},
		create: func(label string, w []*big.Int, ad []byte) (any, error) {
			s, _ := fx.LSeed(label)
			return zk.ProofOfProductIns.Create(s, fx.S(w[0]), fx.S(w[1]), fx.S(w[2]), fx.S(w[3]), fx.S(w[4]), ad)
		},
		refMake: func(label string, w []*big.Int, ad []byte) []*big.Int {
			_, s := fx.LSeed(label)
			p := ref.ProveProduct(s, w[0], w[1], w[2], w[3], w[4], ad)
			return []*big.Int{p.C, p.R1, p.R2}
		},
		make: func(v []*big.Int) any { return fx.LProduct(ref.Product{C: v[0], R1: v[1], R2: v[2]}) },
		verify: func(p any, x []curve.EccPoint, ad []byte) error {
			return p.(*zk.ProofOfProduct).Verify(x[0], x[1], x[2], ad)
		},
		refCheck: func(v []*big.Int, x []ref.P, ad []byte) bool {
			return ref.Product{C: v[0], R1: v[1], R2: v[2]}.Verify(x[0], x[1], x[2], ad)
		},
		clone: func(p any) any { return p.(*zk.ProofOfProduct).Clone() },
		recover: func(p any, x []curve.EccPoint) []curve.EccPoint {
			a, b := zk.ProofOfProductIns.FromCommitments(x[0], x[1], x[2]).RecoverCommitment(p.(*zk.ProofOfProduct))
			return []curve.EccPoint{a, b}
		},
		refRec: func(v []*big.Int, x []ref.P) []ref.P {
			return []ref.P{ref.MulG(v[1]).Sub(x[0].Mul(v[0])), x[1].Mul(v[1]).Add(ref.H.Mul(v[2])).Sub(x[2].Mul(v[0]))}
		},
		hash: func(x, com []curve.EccPoint, ad []byte) (curve.EccScalar, error) {
			return zk.ProofOfProductIns.FromCommitments(x[0], x[1], x[2]).HashToChallenge(com[0], com[1], ad)
		},
		refHash: func(x, com []ref.P, ad []byte) *big.Int {
			return ref.ProductChallenge(x[0], x[1], x[2], com[0], com[1], ad)
		},
	}}
}

// adAlphabet lists associated data of all interesting lengths.
func adAlphabet(e Env) [][]byte {
	seq := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + 1)
		}
		return b
	}
	out := [][]byte{{}, {0}, seq(8), seq(32), seq(255), seq(256), seq(300)}
	if e.Thorough {
		out = append(out, seq(1), seq(31), seq(33), seq(64), seq(254), seq(257), seq(511), seq(512), seq(65535), seq(65536), seq(70000))
	}
	return out
}

// adEdits lists data which differ from ad.
func adEdits(ad []byte) []namedBytes {
	var out []namedBytes
	add := func(name string, b []byte) {
		if !bytes.Equal(b, ad) {
			out = append(out, namedBytes{name, b})
		}
	}
	cp := func() []byte { return append([]byte{}, ad...) }
	add("data extended by a zero", append(cp(), 0))
	add("data empty", nil)
	if len(ad) > 0 {
		for _, i := range []int{0, len(ad) / 2, len(ad) - 1, 254, 255, 256} {
			if i < len(ad) {
				b := cp()
				b[i] ^= 1
				add(fmt.Sprintf("data byte %d changed", i), b)
			}
		}
		add("data truncated", cp()[:len(ad)-1])
		add("data prefixed by a zero", append([]byte{0}, ad...))
		add("data without its first byte", cp()[1:])
	}
	add("other data", []byte("entirely different"))
	return out
}

type namedBytes struct {
	name string
	b    []byte
}

// scalarEdits and pointEdits list replacements of a value.
func scalarEdit(k int, v *big.Int) (string, *big.Int) {
	switch k {
	case 0:
		return "+1", ref.Add(v, ref.I(1))
	case 1:
		return "negated", ref.Neg(v)
	case 2:
		return "zero", ref.I(0)
	case 3:
		return "one", ref.I(1)
	case 4:
		return "-1", ref.Sub(v, ref.I(1))
	case 5:
		return "doubled", ref.Add(v, v)
	case 6:
		return "top bit", ref.Mod(new(big.Int).Xor(v, new(big.Int).Lsh(ref.I(1), 255)))
	}
	return "+2^128", ref.Add(v, new(big.Int).Lsh(ref.I(1), 128))
}

const scalarEdits = 8

func pointEdit(k int, p ref.P) (string, ref.P) {
	switch k {
	case 0:
		return "+G", p.Add(ref.G)
	case 1:
		return "negated", p.Neg()
	case 2:
		return "identity", ref.Identity()
	case 3:
		return "-H", p.Sub(ref.H)
	case 4:
		return "G", ref.G
	case 5:
		return "H", ref.H
	}
	return "doubled", p.Add(p)
}

const pointEdits = 7

func c11Spaces(e Env) []*explore.Space {
	sa := scalarAlphabet(e)
	ads := adAlphabet(e)
	var sp []*explore.Space
	for _, k := range zkKinds() {
		k := k
		alpha := sa
		nAlpha := Pick(e, 15, len(sa))
		if k.free == 4 {
			nAlpha = Pick(e, 5, 9)
		} else if k.free == 3 {
			nAlpha = Pick(e, 8, 15)
		}
		pickAlpha := func(n int) []*big.Int {
			if n >= len(alpha) {
				return alpha
			}
			out := append([]*big.Int{}, alpha[:n-2]...)
			out[len(out)-1] = alpha[4]
			return append(out, alpha[8], randScalar(e, "zk"))
		}
		wa := pickAlpha(nAlpha)
		chooseWitness := func(c *explore.Ctx) []*big.Int {
			a := make([]*big.Int, k.free)
			for i := range a {
				a[i] = wa[c.Choose(fmt.Sprint("witness ", i), len(wa))]
			}
			return k.valid(a)
		}
		sp = append(sp, &explore.Space{
			Name:  k.name + "-complete",
			Bound: fmt.Sprintf("every witness over %d values per scalar (%d free scalars) x associated data of 2 lengths; scalars compared with the reference", len(wa), k.free),
			Run: func(c *explore.Ctx) {
				w := chooseWitness(c)
				ad := [][]byte{{}, ads[len(ads)-1]}[c.Choose("data", 2)]
				c.Key(k.name, hexes(w), ad)
				checkComplete(c, k, e, w, ad)
			},
		}, &explore.Space{
			Name:  k.name + "-data-lengths",
			Bound: fmt.Sprintf("%d lengths of associated data; each with every edit of the data", len(ads)),
			Run: func(c *explore.Ctx) {
				w := k.valid([]*big.Int{randScalar(e, "w", 0), randScalar(e, "w", 1), randScalar(e, "w", 2), randScalar(e, "w", 3)}[:k.free])
				ad := ads[c.Choose("data", len(ads))]
				c.Key(k.name, ad)
				p, vals, pts := checkComplete(c, k, e, w, ad)
				ed := adEdits(ad)
				x := ed[c.Choose("edit", len(ed))]
				judge(c, k, p, vals, pts, x.b, x.name)
			},
		}, &explore.Space{
			Name:   k.name + "-edits",
			Bound:  fmt.Sprintf("3 witnesses (generic, with zeros, boundary); every combination of at most %d edits of proof scalars (%d replacements or swapped), statement points (%d replacements, exchanged) and data", Pick(e, 2, 2), scalarEdits, pointEdits),
			MaxDev: 2,
			Run:    func(c *explore.Ctx) { zkEdits(c, k, e) },
		}, &explore.Space{
			Name:  k.name + "-challenge",
			Bound: "the challenge over every statement point and commitment out of 5 points each (others fixed), in 2 representations, x data of every length; compared with the reference",
			Run: func(c *explore.Ctx) {
				pts := make([]ref.P, k.np)
				for i := range pts {
					pts[i] = ref.MulG(randScalar(e, "ch", i))
				}
				com := make([]ref.P, k.ncom)
				for i := range com {
					com[i] = ref.MulG(randScalar(e, "com", i))
				}
				all := append(append([]ref.P{}, pts...), com...)
				i, j := c.Choose("changed point", len(all)), c.Choose("to", 6)
				if j > 0 {
					_, all[i] = pointEdit(j-1, all[i])
				}
				lp := fx.Pts(all)
				if c.Bool("rebased") {
					for i := range lp {
						lp[i] = fx.Rebase(lp[i])
					}
				}
				ad := ads[c.Choose("data", len(ads))]
				in, intact := fx.Canary(ad)
				got, err := k.hash(lp[:k.np], lp[k.np:], in)
				want := k.refHash(all[:k.np], all[k.np:], ad)
				c.Key(k.name, "challenge", showPoints(false, all), ad)
				c.Check(err == nil && fx.SEq(got, want), "challenge", "%s: challenge of %s with %d bytes of data: %v %s, want %x", k.name, showPoints(false, all), len(ad), got, errStr(err), want)
				c.Check(intact(), "input changed", "%s: the data was changed", k.name)
				c.Eval(1)
			},
		}, &explore.Space{
			Name:  k.name + "-false-statements",
			Bound: "every statement over 4 scalars per hidden value, true and false; proofs made by the library and by the reference prover for a wrong witness",
			Run:   func(c *explore.Ctx) { zkFalse(c, k, e) },
		}, &explore.Space{
			Name:  k.name + "-simulated",
			Bound: "proofs simulated for a chosen challenge and response (7 x 7 values): accepted only if the challenge happens to be the hash; recovered commitments compared with the reference",
			Run: func(c *explore.Ctx) {
				pts := make([]ref.P, k.np)
				for i := range pts {
					pts[i] = ref.MulG(randScalar(e, "sim", i))
				}
				few := append(append([]*big.Int{}, sa[:5]...), sa[8], randScalar(e, "sim", "r"))
				vals := make([]*big.Int, k.nv)
				for i := range vals {
					vals[i] = few[c.Choose("value", len(few))]
				}
				if f := c.Choose("false statement", 3); f == 1 { // every point the same
					for i := range pts {
						pts[i] = ref.G
					}
				} else if f == 2 {
					for i := range pts {
						pts[i] = ref.Identity()
					}
				}
				c.Key(k.name, hexes(vals), showPoints(false, pts))
				p := k.make(vals)
				got := k.recover(p, fx.Pts(pts))
				for i, w := range k.refRec(vals, pts) {
					c.Check(fx.PEq(got[i], w), "recovered commitment", "%s: commitment %d recovered from %s is %x, want %x", k.name, i, hexes(vals), got[i].Serialize(), w.Bytes())
				}
				judge(c, k, p, vals, pts, ads[3], "simulated")
			},
		})
	}
	sp = append(sp, &explore.Space{
		Name:  "other-kinds",
		Bound: "every proof presented as a proof of each kind (its scalars in every order) for its own statement and for the other kind's statement over the same witness",
		Run: func(c *explore.Ctx) {
			ks := zkKinds()
			from, to := ks[c.Choose("from", 3)], ks[c.Choose("to", 3)]
			a := []*big.Int{randScalar(e, "ok", 0), randScalar(e, "ok", 1), randScalar(e, "ok", 2), randScalar(e, "ok", 3)}
			fw, tw := from.valid(a[:from.free]), to.valid(a[:to.free])
			vals := from.refMake(e.Label("other"), fw, ads[2])
			fp, tp := from.points(fw), to.points(tw)
			var pv []*big.Int
			for i := 0; i < to.nv; i++ {
				pv = append(pv, vals[c.Choose("scalar", len(vals))])
			}
			pts := tp
			if c.Bool("own statement") {
				pts = nil
				for i := 0; i < to.np; i++ {
					pts = append(pts, fp[c.Choose("point", len(fp))])
				}
			}
			c.Key(from.name, to.name, hexes(pv), showPoints(false, pts))
			judge(c, to, to.make(pv), pv, pts, ads[2], "proof of kind "+from.name)
		},
	})
	return sp
}

// judge compares the verdicts.
func judge(c *explore.Ctx, k *zkKind, p any, vals []*big.Int, pts []ref.P, ad []byte, what string) {
	want := k.refCheck(vals, pts, ad)
	in, intact := fx.Canary(ad)
	lp := fx.Pts(pts)
	err := k.verify(p, lp, in)
	c.Check((err == nil) == want, "verdict", "%s proof %s for %s (%s): %s, want accepted=%v", k.name, hexes(vals), showPoints(false, pts), what, errStr(err), want)
	c.Check(intact(), "input changed", "%s: the data was changed", k.name)
	for i := range pts {
		c.Check(fx.PEq(lp[i], pts[i]), "input changed", "%s: statement point %d was changed", k.name, i)
	}
	c.Outcome(k.name, want)
	c.Eval(1)
}

func checkComplete(c *explore.Ctx, k *zkKind, e Env, w []*big.Int, ad []byte) (any, []*big.Int, []ref.P) {
	label := e.Label("zk", k.name)
	in, intact := fx.Canary(ad)
	p, err := k.create(label, w, in)
	c.Check(err == nil, "creation", "%s proof for witness %s: %v", k.name, hexes(w), err)
	vals := k.refMake(label, w, ad)
	c.Check(fx.SameParts(p, nil, vals...), "proof", "%s proof for witness %s with %d bytes of data is not the published one", k.name, hexes(w), len(ad))
	c.Check(intact(), "input changed", "%s: the data was changed", k.name)
	pts := k.points(w)
	judge(c, k, p, vals, pts, ad, "honest")
	judge(c, k, k.clone(p), vals, pts, ad, "cloned")
	judge(c, k, p, vals, pts, ad, "honest, again")
	return p, vals, pts
}

func zkEdits(c *explore.Ctx, k *zkKind, e Env) {
	var a []*big.Int
	for i := 0; i < k.free; i++ {
		a = append(a, randScalar(e, "edit", k.name, i))
	}
	switch c.Choose("witness", 3) {
	case 1:
		a[0] = ref.I(0)
	case 2:
		a[0], a[1] = ref.Neg(ref.I(1)), ref.I(1)
	}
	w := k.valid(a)
	ad := adAlphabet(e)[6]
	vals := k.refMake(e.Label("edits"), w, ad)
	pts := k.points(w)
	what := ""
	for i := range vals {
		if d := c.Dev(fmt.Sprint("scalar ", i), scalarEdits+1+k.nv-1-i); d > scalarEdits {
			j := i + d - scalarEdits
			vals[i], vals[j] = vals[j], vals[i]
			what += fmt.Sprintf(" scalars %d and %d exchanged", i, j)
		} else if d > 0 {
			var n string
			n, vals[i] = scalarEdit(d-1, vals[i])
			what += fmt.Sprintf(" scalar %d %s", i, n)
		}
	}
	for i := range pts {
		if d := c.Dev(fmt.Sprint("point ", i), pointEdits+1+k.np-1-i); d > pointEdits {
			j := i + d - pointEdits
			pts[i], pts[j] = pts[j], pts[i]
			what += fmt.Sprintf(" points %d and %d exchanged", i, j)
		} else if d > 0 {
			var n string
			n, pts[i] = pointEdit(d-1, pts[i])
			what += fmt.Sprintf(" point %d %s", i, n)
		}
	}
	ed := adEdits(ad)
	if d := c.Dev("data", len(ed)+1); d > 0 {
		ad = ed[d-1].b
		what += " " + ed[d-1].name
	}
	c.Key(k.name, hexes(vals), showPoints(false, pts), ad)
	judge(c, k, k.make(vals), vals, pts, ad, "edited:"+what)
}

// zkFalse proves statements with a witness which need not satisfy them.
func zkFalse(c *explore.Ctx, k *zkKind, e Env) {
	few := []*big.Int{ref.I(0), ref.I(1), ref.Neg(ref.I(1)), randScalar(e, "false")}
	pick := func(l string) *big.Int { return few[c.Choose(l, len(few))] }
	ad := adAlphabet(e)[3]
	label := e.Label("false")
	switch k.name {
	case "dlog":
		w := []*big.Int{pick("x"), pick("g"), pick("h")}
		pts := k.points(w)
		y, z := pick("gx logarithm"), pick("hx logarithm")
		pts[2], pts[3] = pts[0].Mul(y), pts[1].Mul(z)
		vals := k.refMake(label, w, ad)
		c.Key(k.name, hexes(w), showPoints(false, pts))
		judge(c, k, k.make(vals), vals, pts, ad, "other logarithms")
		// the honest prover's messages with a challenge for the false statement
		_, rs := fx.LSeed(label)
		r := rs.Scalar()
		ch := ref.DlogChallenge(pts[0], pts[1], pts[2], pts[3], pts[0].Mul(r), pts[1].Mul(r), ad)
		vals = []*big.Int{ch, ref.Add(ref.Mul(y, ch), r)}
		judge(c, k, k.make(vals), vals, pts, ad, "cheating prover")
	case "equal-openings":
		s, m := pick("secret"), pick("mask")
		pts := []ref.P{ref.Pedersen(s, m), ref.MulG(pick("simple"))}
		vals := k.refMake(label, []*big.Int{s, m}, ad)
		c.Key(k.name, s, m, showPoints(false, pts))
		judge(c, k, k.make(vals), vals, pts, ad, "other value")
		_, rs := fx.LSeed(label)
		r := rs.Scalar()
		ch := ref.EqOpenChallenge(pts[0], pts[1], ref.H.Mul(r), ad)
		vals = []*big.Int{ch, ref.Add(ref.Mul(m, ch), r)}
		judge(c, k, k.make(vals), vals, pts, ad, "cheating prover")
	default:
		w := []*big.Int{pick("lhs"), pick("rhs"), pick("rhs mask"), pick("product"), pick("product mask")}
		pts := k.points(w)
		p, err := k.create(label, w, ad)
		if err != nil {
			c.Fail("creation", "product proof for %s: %v", hexes(w), err)
		}
		vals := k.refMake(label, w, ad)
		c.Key(k.name, hexes(w))
		c.Check(fx.SameParts(p, nil, vals...), "proof", "product proof for %s is not the published one", hexes(w))
		holds := w[3].Cmp(ref.Mul(w[0], w[1])) == 0
		c.Check(k.refCheck(vals, pts, ad) == holds, "oracle", "the reference verifier accepts a false product")
		judge(c, k, p, vals, pts, ad, fmt.Sprint("product holds: ", holds))
	}
}
