package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/dealings"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C04",
		Level: "fault_enumeration",
		Rule: "one execution is one dealing with a combination of edits verified in one context; the verdict is compared with an independent verifier; " +
			"distinct means distinct (dealing, context) combinations",
		Assume: []string{"the proof systems are sound, so the reference verifier's verdict is the truth", "no accidental hash collision"},
		Spaces: c04Spaces,
	})
}

func c04Spaces(e Env) []*explore.Space {
	ads := adAlphabet(e)
	nMax := Pick(e, 4, 6)
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "honest", Bound: fmt.Sprintf("4 operations x 1..%d receivers x every threshold x dealers 0,1,n,255 x source thresholds 1..3 x bare or wrapped source commitments; each also against neighbouring thresholds and receiver counts, every other dealer and edited data", nMax),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			n := 1 + c.Choose("receivers", nMax)
			t := 1 + c.Choose("threshold", n)
			ds := []int{0, 1, n, 255}
			dealer := ds[c.Choose("dealer", 4)]
			t1, t2 := 1, 1
			if kind != ref.KRandom {
				t1 = 1 + c.Choose("source threshold", 3)
			}
			if kind == ref.KProduct {
				t2 = 1 + c.Choose("second source threshold", 3)
			}
			wrap := c.Bool("wrapped")
			o := newOperation(e, kind, t1, t2)
			ad := ads[(n+t+dealer)%len(ads)]
			ns := fx.Nodes(e.Label("public"), n)
			what := dealName(kind, n, t)
			c.Key(kind, n, t, dealer, t1, t2, wrap)
			l, r := dealOne(c, what, o, e.Label("honest", kind, n, t), t, ns, dealer, ad)
			d := fromRef(r)
			c.Check(checkPublic(c, what, l, d, o, wrap, t, dealer, n, ad), "oracle", "%s: the reference rejects an honest dealing", what)
			for dt := -1; dt <= 1; dt++ {
				for dn := -1; dn <= 1; dn++ {
					checkPublic(c, what, l, d, o, wrap, t+dt, dealer, n+dn, ad)
				}
			}
			for _, x := range append(ds, dealer+1, dealer+256, dealer+65536, dealer+1<<32) {
				checkPublic(c, what, l, d, o, wrap, t, x, n, ad)
			}
			for _, x := range adEdits(ad) {
				checkPublic(c, what+" "+x.name, l, d, o, wrap, t, dealer, n, x.b)
			}
		},
	}, &explore.Space{
		Name: "operations", Bound: "every kind of dealing against every operation whose source commitments are of every kind, of the right or another sharing, of thresholds 1..2",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			ns := fx.Nodes(e.Label("public"), 3)
			src := newOperation(e, kind, 2, 2)
			ad := ads[3]
			r := fx.RefDeal(src.secret(1), e.Label("ops"), 2, ns, 1, ad)
			d := fromRef(r)
			o := operation{kind: c.Choose("checked as", 4)}
			pick := func(l string) *sharing {
				switch c.Choose(l, 7) {
				case 0:
					if src.p1 != nil {
						return src.p1
					}
					c.Skip()
				case 1:
					if src.p2 != nil {
						return src.p2
					}
					c.Skip()
				case 2: // the right points under the other kind
					if src.p1 != nil {
						x := *src.p1
						x.ped = !x.ped
						return &x
					}
					c.Skip()
				case 3:
					if src.p2 != nil {
						x := *src.p2
						x.ped = !x.ped
						return &x
					}
					c.Skip()
				case 4:
					return newSharing(e, "foreign", false, 2)
				case 5:
					return newSharing(e, "foreign", true, 2)
				}
				return &sharing{ped: d.ped, com: d.com} // its own commitment
			}
			if o.kind != ref.KRandom {
				o.p1 = pick("first source")
			}
			if o.kind == ref.KProduct {
				o.p2 = pick("second source")
			}
			wrap := c.Bool("wrapped")
			for _, s := range []*sharing{o.p1, o.p2} {
				if s != nil {
					c.Key(kind, o.kind, wrap, s.show())
				}
			}
			for dealer := 0; dealer < 3; dealer++ {
				checkPublic(c, "honest "+dealName(kind, 3, 2), d.lib(), d, o, wrap, 2, dealer, 3, ad)
			}
		},
	}, &explore.Space{
		Name:   "edits",
		Bound:  "4 operations, 3 receivers, threshold 2; every combination of at most 2 edits of commitment (points, exchanged, dropped, added, kind), ciphertext (every part, kind), proof (scalars, missing, other kind, for other statements), source commitments, data, dealer, threshold, receiver count",
		MaxDev: 2,
		Run:    func(c *explore.Ctx) { dealingEdits(c, e) },
	}, &explore.Space{
		Name: "constant-terms", Bound: "resharing and multiplication dealings made from every combination of {the dealer's, another dealer's, zero, off by one, negated} inputs with honest proofs over those inputs, for dealers 0..2",
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("operation", 3)
			dealer := c.Choose("dealer", 3)
			o := newOperation(e, kind, 2, 2)
			sec := o.secret(dealer)
			other := o.secret((dealer + 1) % 3)
			what := ""
			for i := range sec.S {
				f := c.Choose(fmt.Sprint("input ", i), 5)
				what += fmt.Sprint(" ", f)
				sec.S[i] = []*big.Int{sec.S[i], other.S[i], ref.I(0), ref.Add(sec.S[i], ref.I(1)), ref.Neg(sec.S[i])}[f]
			}
			c.Key(kind, dealer, what)
			ns := fx.Nodes(e.Label("public"), 3)
			l, err := fx.Deal(sec, e.Label("const"), 2, ns, dealer, ads[2])
			c.Check(err == nil, "creation", "%v", err)
			r := fx.RefDeal(sec, e.Label("const"), 2, ns, dealer, ads[2])
			c.Check(fx.DealingDiff(l, r) == "", "dealing", "%s is not the published one", fx.DealingDiff(l, r))
			for x := 0; x < 3; x++ {
				checkPublic(c, fmt.Sprintf("%s from inputs%s", kindNames[kind], what), l, fromRef(r), o, false, 2, x, 3, ads[2])
			}
		},
	}, &explore.Space{
		Name: "cheating-proofs", Bound: "masked resharing and multiplication dealings whose constant term is off, with proofs by a prover who hashes the true statement but uses wrong witnesses, or who omits one part of the statement, the data or a commitment from the challenge",
		Run: func(c *explore.Ctx) { cheatingProofs(c, e) },
	}, &explore.Space{
		Name: "creation-arguments", Bound: "4 operations x thresholds -2..n+2 x 0..4 receivers; unknown kinds of secret and operation",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 5)
			n := c.Choose("receivers", 5)
			t := c.Choose("threshold", n+5) - 2
			ns := fx.Nodes(e.Label("public"), n)
			ls, _ := fx.LSeed(e.Label("args"))
			c.Key(kind, n, t)
			if kind == 4 {
				for _, s := range []dealings.SecretShares{nil, 7, "x", struct{}{}} {
					_, err := dealings.NewIDkgDealingInternal(s, fx.K, ls, t, fx.PKs(ns), 0, nil)
					c.Check(err != nil, "unknown secret", "a dealing is made from %v", s)
				}
				return
			}
			o := newOperation(e, kind, 2, 2)
			l, err := fx.Deal(o.secret(1), e.Label("args"), t, ns, 1, nil)
			ok := t > 0 && t <= n
			c.Check((err == nil) == ok, "acceptance", "threshold %d for %d receivers: %s", t, n, errStr(err))
			if ok {
				for _, op := range []dealings.IDkgTranscriptOperationInternal{nil, 7, struct{}{}} {
					c.Check(l.PubliclyVerify(fx.K, op, t, 1, n, nil) != nil, "unknown operation", "a dealing verifies for %v", op)
				}
				c.Check(l.PubliclyVerify(fx.K+1, o.lib(false), t, 1, n, nil) != nil, "curve", "a dealing verifies for another curve")
				c.Check(l.PubliclyVerify(fx.K, o.lib(false), t, common.NodeIndex(1), n, nil) == nil, "verdict", "an honest dealing is rejected")
			}
		},
	})
	sp = append(sp, largeDealings(e)...)
	return sp
}

// dealingEdits enumerates edited dealings.
func dealingEdits(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 4)
	ad, dealer, t, n := adAlphabet(e)[6], 1, 2, 3
	ns := fx.Nodes(e.Label("public"), 3)
	o := newOperation(e, kind, 2, 2)
	_, rs := fx.LSeed(e.Label("edits"))
	r := fx.RefDeal(o.secret(dealer), e.Label("edits"), t, ns, dealer, ad)
	d := fromRef(r)
	megaSeed := rs.Derive("ic-crypto-tecdsa-create-dealing-mega-encrypt")
	beta := ref.Beta(d.cipher.Kind, megaSeed)
	what := ""
	for i := range d.com {
		if x := c.Dev(fmt.Sprint("commitment ", i), pointEdits+1); x > 0 {
			var nm string
			nm, d.com[i] = pointEdit(x-1, d.com[i])
			what += fmt.Sprintf(" commitment %d %s", i, nm)
		}
	}
	switch c.Dev("commitment", 5) {
	case 1:
		d.com[0], d.com[1] = d.com[1], d.com[0]
		what += " commitment points exchanged"
	case 2:
		d.com = d.com[:1]
		what += " commitment point dropped"
	case 3:
		d.com = append(d.com, ref.Identity())
		what += " identity appended to the commitment"
	case 4:
		d.ped = !d.ped
		what += " commitment of the other kind"
	}
	what += cipherEdit(c, &d.cipher, beta, megaSeed, dealer, ad, Pick(e, 5, scalarEdits), Pick(e, 5, pointEdits))
	switch c.Dev("ciphertext kind", 3) {
	case 1: // the other kind with a valid proof
		k := 3 - d.cipher.Kind
		var plain [][]*big.Int
		for i := range ns {
			plain = append(plain, []*big.Int{r.Share(i)[0], ref.I(9)}[:k])
		}
		d.cipher = ref.Encrypt(k, megaSeed, plain, fx.RPKs(ns), dealer, ad)
		what += " ciphertext of the other kind"
	case 2: // the other kind with the same parts
		k := 3 - d.cipher.Kind
		for i := range d.cipher.CT {
			d.cipher.CT[i] = []*big.Int{d.cipher.CT[i][0], ref.I(9)}[:k]
		}
		d.cipher.Kind = k
		what += " ciphertext relabelled"
	}
	what += proofEdit(c, d, o, r, rs, dealer, ad)
	// the context
	for i, s := range []**sharing{&o.p1, &o.p2} {
		if *s == nil {
			continue
		}
		x := **s
		x.com = append([]ref.P{}, x.com...)
		switch k := c.Dev(fmt.Sprint("source ", i), 7); k {
		case 1, 2:
			x.com[k-1] = x.com[k-1].Add(ref.G)
		case 3:
			x.com[0], x.com[1] = x.com[1], x.com[0]
		case 4:
			x.ped = !x.ped
		case 5:
			x.com = x.com[:1]
		case 6:
			x.com = append(x.com, ref.G)
		default:
			continue
		}
		what += fmt.Sprintf(" source %d changed", i)
		*s = &x
	}
	ed := adEdits(ad)
	if x := c.Dev("data", len(ed)+1); x > 0 {
		ad = ed[x-1].b
		what += " " + ed[x-1].name
	}
	if x := c.Dev("dealer", 5); x > 0 {
		dealer = []int{1, 0, 2, 257, 1 + 1<<32}[x]
		what += " other dealer"
	}
	if x := c.Dev("threshold", 4); x > 0 {
		t = []int{2, 1, 3, 0}[x]
		what += " other threshold"
	}
	if x := c.Dev("receivers", 4); x > 0 {
		n = []int{3, 2, 4, 0}[x]
		what += " other receiver count"
	}
	c.Key(kind, what)
	if checkPublic(c, "edited "+kindNames[kind]+" dealing:"+what, d.lib(), d, o, false, t, dealer, n, ad) {
		c.Outcome(kind, what)
	}
}

// proofEdit changes the proof of a dealing.
func proofEdit(c *explore.Ctx, d *anyDealing, o operation, r *ref.Dealing, rs ref.Seed, dealer int, ad []byte) string {
	vals := func() []*big.Int {
		if d.eq != nil {
			return []*big.Int{d.eq.C, d.eq.R}
		}
		if d.prod != nil {
			return []*big.Int{d.prod.C, d.prod.R1, d.prod.R2}
		}
		return nil
	}()
	set := func() {
		if d.eq != nil {
			d.eq = &ref.EqOpen{C: vals[0], R: vals[1]}
		} else if d.prod != nil {
			d.prod = &ref.Product{C: vals[0], R1: vals[1], R2: vals[2]}
		}
	}
	what := ""
	for i := range vals {
		if x := c.Dev(fmt.Sprint("proof scalar ", i), scalarEdits+1); x > 0 {
			var n string
			n, vals[i] = scalarEdit(x-1, vals[i])
			what += fmt.Sprintf(" proof scalar %d %s", i, n)
		}
	}
	set()
	x := c.Dev("proof of relation", 7)
	if x == 0 {
		return what
	}
	sec := o.secret(dealer)
	if o.kind == ref.KRandom { // something to prove
		sec.S = []*big.Int{ref.I(1), ref.I(2), ref.I(3)}
	}
	sec.S = append(sec.S, ref.I(4), ref.I(5), ref.I(6))
	eq := func(s, m *big.Int, ad []byte) *ref.EqOpen {
		p := ref.ProveEqOpen(rs.Derive("again"), s, m, ad)
		return &p
	}
	prod := func(l, rr, m *big.Int, ad []byte) *ref.Product {
		mask := ref.I(0)
		if r.Mask != nil {
			mask = r.Mask[0]
		}
		p := ref.ProveProduct(rs.Derive("again"), l, rr, m, r.Values[0], mask, ad)
		return &p
	}
	d.eq, d.prod = nil, nil
	switch x {
	case 1:
		return what + " proof missing"
	case 2:
		d.eq = eq(sec.S[0], sec.S[1], ad)
		return what + " fresh resharing proof"
	case 3:
		d.prod = prod(sec.S[0], sec.S[1], sec.S[2], ad)
		return what + " fresh product proof"
	case 4: // for other data
		if o.kind == ref.KProduct {
			d.prod = prod(sec.S[0], sec.S[1], sec.S[2], append(append([]byte{}, ad...), 0))
		} else {
			d.eq = eq(sec.S[0], sec.S[1], append(append([]byte{}, ad...), 0))
		}
		return what + " proof for other data"
	case 5: // of another dealer
		s2 := o.secret(dealer + 1)
		s2.S = append(s2.S, ref.I(4), ref.I(5), ref.I(6))
		if o.kind == ref.KProduct {
			d.prod = prod(s2.S[0], s2.S[1], s2.S[2], ad)
		} else {
			d.eq = eq(s2.S[0], s2.S[1], ad)
		}
		return what + " proof of another dealer"
	}
	if o.kind == ref.KProduct { // scalars of one under the other's label
		p := prod(sec.S[0], sec.S[1], sec.S[2], ad)
		d.eq = &ref.EqOpen{C: p.C, R: p.R1}
	} else {
		p := eq(sec.S[0], sec.S[1], ad)
		d.prod = &ref.Product{C: p.C, R1: p.R, R2: p.R}
	}
	return what + " relabelled proof"
}

// cheatingProofs builds proofs as dishonest provers would.
func cheatingProofs(c *explore.Ctx, e Env) {
	kind := ref.KMasked + c.Choose("operation", 2)
	ad, dealer, ns := adAlphabet(e)[2], 1, fx.Nodes(e.Label("public"), 3)
	o := newOperation(e, kind, 2, 2)
	sec := o.secret(dealer)
	_, rs := fx.LSeed(e.Label("cheat"))
	delta := ref.I(int64(c.Choose("constant term off by", 3)))
	r1, r2 := randScalar(e, "r1"), randScalar(e, "r2")
	omit := c.Choose("omitted from the challenge", 9)
	var d *anyDealing
	// a challenge computed as if one input were another point or empty data
	pick := func(i int, p ref.P) ref.P {
		if omit == i {
			return ref.Identity()
		}
		return p
	}
	cad := ad
	if omit == 1 {
		cad = nil
	}
	if kind == ref.KMasked {
		s := ref.Add(sec.S[0], delta)
		r := fx.RefDeal(ref.Secret{Kind: ref.KUnmasked, S: []*big.Int{s}}, e.Label("cheat"), 2, ns, dealer, ad)
		d = fromRef(r)
		a, b := ref.CommitAt(o.p1.com, dealer), d.com[0]
		ch := ref.EqOpenChallenge(pick(2, a), pick(3, b), pick(4, ref.H.Mul(r1)), cad)
		if omit == 5 { // knows the difference only
			ch = ref.EqOpenChallenge(a.Sub(b), ref.Identity(), ref.H.Mul(r1), cad)
		}
		d.eq = &ref.EqOpen{C: ch, R: ref.Add(ref.Mul(sec.S[1], ch), r1)}
	} else {
		prodV := ref.Add(ref.Mul(sec.S[0], sec.S[1]), delta)
		sh := ref.Shape(ref.Secret{Kind: ref.KProduct, S: sec.S}, rs, 2)
		sh.Values[0] = prodV
		sh.Commit = ref.Commit(sh.Values, sh.Mask, 2)
		sh.Cipher = ref.Encrypt(ref.Pair, rs.Derive("c"), sh.Plain(3), fx.RPKs(ns), dealer, ad)
		d = fromRef(sh)
		lhs, rhs, pr := ref.CommitAt(o.p1.com, dealer), ref.CommitAt(o.p2.com, dealer), d.com[0]
		c1, c2 := ref.MulG(r1), rhs.Mul(r1).Add(ref.H.Mul(r2))
		if omit == 7 { // a prover who adapts the second commitment to the false product
			c2 = c2.Add(ref.G)
		}
		ch := ref.ProductChallenge(pick(2, lhs), pick(3, rhs), pick(4, pr), pick(5, c1), pick(6, c2), cad)
		if omit == 8 { // solves for the product afterwards
			pr = ref.Pedersen(prodV, sh.Mask[0])
		}
		d.prod = &ref.Product{C: ch, R1: ref.Add(ref.Mul(sec.S[0], ch), r1), R2: ref.Add(ref.Mul(ref.Sub(sh.Mask[0], ref.Mul(sec.S[0], sec.S[2])), ch), r2)}
	}
	what := fmt.Sprintf("%s dealing off by %v with a proof omitting %d", kindNames[kind], delta, omit)
	c.Key(what)
	got := checkPublic(c, what, d.lib(), d, o, false, 2, dealer, 3, ad)
	c.Check(!got || delta.Sign() == 0, "oracle", "%s: the reference accepts", what)
}
