package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

// Spaces of several checks with committees of the size of a subnet (13 to 40
// nodes), with indices and numbers of receivers around the powers of 256, and
// with shares which happen to be zero.

// largeSizes are committees with their thresholds.
func largeSizes(e Env) [][2]int {
	return Pick(e, [][2]int{{13, 5}, {17, 17}, {28, 10}, {40, 14}}, [][2]int{{13, 5}, {16, 16}, {17, 17}, {28, 10}, {33, 33}, {40, 14}, {64, 22}, {100, 34}})
}

// indexSet is 0..n-1, or every step-th index.
func indexSet(n, first, step int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = first + i*step
	}
	return out
}

func largeHistories(e Env) []*explore.Space {
	sizes := Pick(e, [][2]int{{13, 5}, {28, 10}, {40, 14}}, [][2]int{{13, 5}, {28, 10}, {34, 12}, {40, 14}, {64, 22}})
	return []*explore.Space{{
		Name:  "large-committees",
		Bound: fmt.Sprintf("4 operations between committees of sizes and thresholds %v, by the first as many dealers as needed or the last as many and 2 more (quick: not for 40 nodes, where products are of half the threshold); every share opened, verified and interpolated from 3 sets", sizes),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			sz := sizes[c.Choose("committee", len(sizes))]
			n, t := sz[0], sz[1]
			st := t
			if n >= 40 && !e.Thorough && kind == ref.KProduct {
				st = t / 2
			}
			o := cachedOperation(e, kind, st, st)
			nd := o.need()
			if kind == ref.KRandom {
				nd = t
			}
			first := 0
			if (n < 40 || e.Thorough) && c.Bool("more dealers from the end") {
				nd = min(nd+2, n)
				first = n - nd
			}
			s := stepSpec{label: e.Label("large", kind, n, first), o: o, t: t, n: n, dealers: indexSet(nd, first, 1), ad: []byte("large"), verify: true}
			ds := map[int]*ref.Dealing{}
			for _, d := range s.dealers {
				ds[d] = fx.RefShape(s.o.secret(d), fmt.Sprint(s.label, "/", d), t)
			}
			after, want := refStep(s)
			c.Key(kind, n, t, first)
			l := step(c, s, after, fx.Nodes(e.Label("large committee"), n), o.lib(true), nil)
			for _, q := range [][]int{indexSet(t, 0, 1), indexSet(t, n-t, 1), indexSet(t, 0, 2)} {
				co := ref.LagrangeAt(ref.I(0), ref.Nodes(q))
				sum := ref.I(0)
				for k, i := range q {
					sum = ref.Add(sum, ref.Mul(co[k], fx.OpenVals(l.opens[i])[0]))
				}
				c.Check(sum.Cmp(want) == 0, "secret", "%s: the openings of %v interpolate to %x, want %x", s.show(), q, sum, want)
			}
			c.State(after.show())
			c.Step(1)
			c.Outcome(kind, n, t, nd)
			c.Eval(1)
		},
	}, {
		Name:  "zero-shares",
		Bound: "4 operations by 3 dealers with threshold 2 for 3 receivers where the combined share of receiver 0, 1 or 2 is zero in value, in mask or in both, or its dealt share by one dealer is; every share opened and interpolated",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			who := c.Choose("receiver", 3)
			part := 1 + c.Choose("zero part", 3)
			one := c.Choose("of", 4) // the combined share or a dealer's
			o := cachedOperation(e, kind, 2, 2)
			dl := []int{0, 1, 2}
			label := e.Label("zero shares", kind)
			ds := map[int]*ref.Dealing{}
			for _, d := range dl {
				ds[d] = fx.RefShape(o.secret(d), fmt.Sprint(label, d), 2)
				ds[d].Values, ds[d].Mask = append(ref.Poly{}, ds[d].Values...), append(ref.Poly{}, ds[d].Mask...)
				if len(ds[d].Mask) == 0 {
					ds[d].Mask = nil
				}
			}
			if part > 1 && ds[0].Mask == nil {
				c.Skip()
			}
			// the slope of dealer x makes its own or the combined share zero
			x := max(one-1, 0)
			co := ref.LagrangeAt(ref.I(0), ref.Nodes(dl))
			if kind == ref.KRandom {
				co = []*big.Int{ref.I(1), ref.I(1), ref.I(1)}
			}
			fix := func(p func(d int) ref.Poly) {
				var rest *big.Int
				at := ref.I(int64(who + 1))
				if one > 0 {
					rest = p(x)[0]
				} else {
					rest = p(x)[0]
					for _, d := range dl {
						if d != x {
							rest = ref.Add(rest, ref.Mul(ref.Mul(co[d], ref.Inv(co[x])), p(d).At(who)))
						}
					}
				}
				p(x)[1] = ref.Neg(ref.Mul(rest, ref.Inv(at)))
			}
			if part&1 == 1 {
				fix(func(d int) ref.Poly { return ds[d].Values })
			}
			if part&2 == 2 {
				fix(func(d int) ref.Poly { return ds[d].Mask })
			}
			ns := fx.Nodes(e.Label("history committee", 1), 3)
			ad := []byte("zero shares")
			lib := map[int]*dealings.IDkgDealingInternal{}
			for _, d := range dl {
				_, rs := fx.LSeed(fmt.Sprint(label, "e", d))
				ds[d].Commit = ref.Commit(ds[d].Values, ds[d].Mask, 2)
				ds[d].Cipher = ref.Encrypt(ds[d].CipherKind(), rs, ds[d].Plain(3), fx.RPKs(ns), d, ad)
				lib[d] = fromRef(ds[d]).lib()
			}
			after := combineRef(kind, ds)
			what := fmt.Sprintf("%s where receiver %d has share %s", kindNames[kind], who, hexes(after.share(who)))
			c.Key(kind, who, part, one)
			tr, err := dealings.NewTranscriptInternal(fx.K, 2, fx.DealMap(lib), o.lib(true))
			c.Check(err == nil && fx.CommitEq(tr.CombinedCommitment, after.ped, after.com), "transcript", "%s: %s", what, errStr(err))
			for i := range ns {
				got, err := dealings.CommitmentOpening.FromDealings(fx.DealMap(lib), tr.CombinedCommitment, ad, common.NodeIndex(i), ns[i].SK, ns[i].PK)
				c.Check(err == nil && fx.OpEq(got, after.share(i)), "opening", "%s: receiver %d opens %s (%s), want %s", what, i, fx.ShowOp(got), errStr(err), hexes(after.share(i)))
				c.Check(tr.CombinedCommitment.CheckOpening(common.NodeIndex(i), got), "opening", "%s: the opening of %d is not consistent", what, i)
			}
			c.State(after.show())
			c.Eval(4)
		},
	}}
}

func largeTranscripts(e Env) []*explore.Space {
	counts := Pick(e, []int{12, 13, 16, 17, 20, 32, 33, 40}, []int{9, 10, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 64, 65})
	return []*explore.Space{{
		Name:  "many-dealings",
		Bound: fmt.Sprintf("4 operations with %v dealings by neighbouring or spread dealers, sources which need as many, one more, or half; new thresholds 1, 2", counts),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			n := counts[c.Choose("dealings", len(counts))]
			t := 1 + c.Choose("threshold", 2)
			first, step := 0, 1
			if c.Bool("spread") {
				first, step = 250, 3
			}
			need := []int{n, n + 1, n / 2}
			k := 0
			if kind != ref.KRandom {
				k = c.Choose("needed", 3)
			}
			t1, t2 := need[k], 1
			if kind == ref.KProduct {
				t1, t2 = (need[k]+1)/2, need[k]+1-(need[k]+1)/2
			}
			o := cachedOperation(e, kind, t1, t2)
			src := sourcesOf(o)
			idx := indexSet(n, first, step)
			c.Key(kind, n, t, first, k)
			checkTranscript(c, fmt.Sprintf("%s (sources %d, %d) with threshold %d from %d dealers from %d", kindNames[kind], t1, t2, t, n, first),
				libOperation(kind, src, 0), kind, src, t, idx, honestComs(e, o, t, idx))
		},
	}, {
		Name:  "large-thresholds",
		Bound: fmt.Sprintf("4 operations by 3 dealers with new thresholds out of %v, asked for as they are, one less and one more; one dealing optionally with another length", counts),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			t := counts[c.Choose("threshold", len(counts))]
			ask := t - 1 + c.Choose("asked for", 3)
			o := cachedOperation(e, kind, 2, 2)
			idx := []int{0, 1, 2}
			coms := honestComs(e, o, t, idx)
			other := c.Choose("other length", 4)
			if other > 0 {
				coms[other-1] = anyCom{coms[other-1].ped, append(append([]ref.P{}, coms[other-1].ps...), ref.G)[:t+1]}
			}
			src := sourcesOf(o)
			c.Key(kind, t, ask, other)
			checkTranscript(c, fmt.Sprintf("%s with threshold %d, dealt for %d", kindNames[kind], ask, t), libOperation(kind, src, 0), kind, src, ask, idx, coms)
		},
	}}
}

func largeDealings(e Env) []*explore.Space {
	ad := adAlphabet(e)[2]
	sizes := largeSizes(e)
	return []*explore.Space{{
		Name:  "many-receivers",
		Bound: "4 operations; dealings with {1, 2, 255, 256, 257, 258, 511, 513, 65535, 65536, 65537, 65538} encrypted shares against every expected number out of: the same, off by 1, 2, 256, 65536, modulo 256 and 65536",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			ks := []int{1, 2, 255, 256, 257, 258, 511, 513, 65535, 65536, 65537, 65538}
			n := ks[c.Choose("receivers", len(ks))]
			o := cachedOperation(e, kind, 2, 2)
			d := fromRef(fx.RefDeal(o.secret(1), e.Label("many", kind), 1, fx.Nodes(e.Label("public"), 1), 1, ad))
			ct := d.cipher.CT[0]
			d.cipher.CT = nil
			for i := 0; i < n; i++ {
				d.cipher.CT = append(d.cipher.CT, ct)
			}
			l := d.lib()
			c.Key(kind, n)
			what := fmt.Sprintf("dealing with %d shares", n)
			c.Check(checkPublic(c, what, l, d, o, true, 1, 1, n, ad), "oracle", "%s: the reference rejects it", what)
			for _, m := range []int{n - 1, n + 1, n - 2, n + 2, n + 256, n - 256, n + 65536, n - 65536, n + 1<<32, n % 256, n % 65536, 0, 256} {
				if m >= 0 && m != n {
					checkPublic(c, what, l, d, o, true, 1, 1, m, ad)
				}
			}
		},
	}, {
		Name:  "large-committees",
		Bound: fmt.Sprintf("4 operations; honest dealings for committees of sizes and thresholds %v, of sources with threshold 1, 17 or 33, against neighbouring thresholds and sizes; one commitment point or encrypted share altered", sizes),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			sz := sizes[c.Choose("committee", len(sizes))]
			n, t := sz[0], sz[1]
			st := 1
			if kind != ref.KRandom {
				st = []int{1, 17, 33}[c.Choose("source threshold", 3)]
			}
			o := cachedOperation(e, kind, st, st)
			dealer := n - 1
			d := fromRef(fx.RefDeal(o.secret(dealer), e.Label("large", kind, n, t), t, fx.Nodes(e.Label("large committee"), n), dealer, ad))
			c.Key(kind, n, t, st)
			l := d.lib()
			what := dealName(kind, n, t)
			c.Check(checkPublic(c, what, l, d, o, true, t, dealer, n, ad), "oracle", "%s: the reference rejects it", what)
			for _, x := range [][2]int{{t - 1, n}, {t + 1, n}, {t, n - 1}, {t, n + 1}, {n + 1, n}, {1, n}} {
				checkPublic(c, what, l, d, o, true, x[0], dealer, x[1], ad)
			}
			checkPublic(c, what+", other dealer", l, d, o, true, t, dealer-1, n, ad)
			d.com[0] = d.com[0].Add(ref.G)
			checkPublic(c, what+", constant term altered", d.lib(), d, o, true, t, dealer, n, ad)
		},
	}}
}

func largeShares(e Env) []*explore.Space {
	ad := adAlphabet(e)[2]
	return []*explore.Space{{
		Name:  "wide-receivers",
		Bound: "both commitment kinds, thresholds 1, 2, receivers of index {1, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537} in dealings with that many shares (and 1 more), whose encrypted share is {right, off in value, off in mask, the right one of the index modulo 256 or 65536}",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			t := 1 + c.Choose("threshold", 2)
			ks := []int{1, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537}
			who := ks[c.Choose("receiver", len(ks))]
			f := c.Choose("share", 5)
			more := c.Choose("after it", 2)
			ns := fx.Nodes(e.Label("private"), 1)
			_, rs := fx.LSeed(e.Label("wide receiver", kind))
			r := ref.Shape(newOperation(e, kind, 2, 2).secret(1), rs, t)
			r.Commit = ref.Commit(r.Values, r.Mask, t)
			r.Cipher = ref.Encrypt(r.CipherKind(), rs.Derive("e"), nil, nil, 1, ad)
			d := fromRef(r)
			zero := make([]*big.Int, d.cipher.Kind)
			for i := range zero {
				zero[i] = ref.I(0)
			}
			for i := 0; i <= who+more; i++ {
				d.cipher.CT = append(d.cipher.CT, zero)
			}
			p := append([]*big.Int{}, r.Share(who)...)
			switch f {
			case 1:
				p[0] = ref.Add(p[0], ref.I(1))
			case 2:
				p[len(p)-1] = ref.Neg(p[len(p)-1])
			case 3:
				p = r.Share(who % 256)
			case 4:
				p = r.Share(who % 65536)
			}
			m := ref.MegaMask(d.cipher.Kind, 1, who, ad, ns[0].Pk, d.cipher.Eph, d.cipher.Eph.Mul(ns[0].Sk))
			ct := make([]*big.Int, len(p))
			for i := range p {
				ct[i] = ref.Add(p[i], m[i])
			}
			d.cipher.CT[who] = ct
			c.Key(kind, t, who, f, more)
			l := d.lib()
			what := fmt.Sprintf("dealing with %d shares, that of %d in form %d", len(d.cipher.CT), who, f)
			got := checkPrivate(c, what, l, d, 1, who, ad, ns[0].Sk, ns[0].Pk)
			c.Check(got == (hexes(p) == hexes(r.Share(who))), "oracle", "%s: the reference says %v", what, got)
			for _, x := range []int{who % 256, who % 65536, who + 1, who + 2, who + 256, who + 65536, who + 1<<32} {
				if x != who {
					checkPrivate(c, what, l, d, 1, x, ad, ns[0].Sk, ns[0].Pk)
				}
			}
		},
	}, {
		Name:  "large-committees",
		Bound: fmt.Sprintf("both commitment kinds, committees of sizes and thresholds %v; receivers 0, the threshold's neighbours and the last, with right or wrong shares", largeSizes(e)),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			sizes := largeSizes(e)
			sz := sizes[c.Choose("committee", len(sizes))]
			n, t := sz[0], sz[1]
			isBad := c.Bool("wrong")
			ns := fx.Nodes(e.Label("large committee"), n)
			_, rs := fx.LSeed(e.Label("large private", kind, n))
			r := ref.Shape(newOperation(e, kind, 2, 2).secret(1), rs, t)
			r.Commit = ref.Commit(r.Values, r.Mask, t)
			plain := r.Plain(n)
			for i := range plain {
				if isBad {
					plain[i] = append([]*big.Int{}, plain[i]...)
					plain[i][len(plain[i])-1] = ref.Add(plain[i][len(plain[i])-1], ref.I(int64(i+1)))
				}
			}
			r.Cipher = ref.Encrypt(r.CipherKind(), rs.Derive("e"), plain, fx.RPKs(ns), 1, ad)
			d := fromRef(r)
			l := d.lib()
			c.Key(kind, n, t, isBad)
			for _, i := range []int{0, 1, t - 2, t - 1, min(t, n-1), n / 2, n - 2, n - 1} {
				got := checkPrivate(c, dealName(kind, n, t), l, d, 1, i, ad, ns[i].Sk, ns[i].Pk)
				c.Check(got != isBad, "oracle", "%s: the reference's verdict for %d", dealName(kind, n, t), i)
			}
		},
	}}
}

// zeroAt makes the share of a node zero in value (1), mask (2) or both (3).
func zeroAt(r *ref.Dealing, who, part int) {
	fix := func(p ref.Poly) ref.Poly {
		q := append(ref.Poly{}, p...)
		k := min(1, len(q)-1)
		if k == 0 {
			q[0] = ref.I(0)
			return q
		}
		q[k] = ref.I(0)
		q[k] = ref.Neg(ref.Mul(q.At(who), ref.Inv(ref.I(int64(who+1)))))
		return q
	}
	if part&1 == 1 {
		r.Values = fix(r.Values)
	}
	if part&2 == 2 && r.Mask != nil {
		r.Mask = fix(r.Mask)
	}
	r.Commit = ref.Commit(r.Values, r.Mask, len(r.Values))
}

func zeroComplaints(e Env) []*explore.Space {
	return []*explore.Space{{
		Name:  "zero-shares",
		Bound: "both commitment kinds, thresholds 1..2; the complainer's share committed to is {random, zero value, zero mask, zero}, what is encrypted is {right, off in value, off in mask, off in both, zero, zero value, zero mask, value and mask exchanged}; complaints are made by both receivers and verified",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			t := 1 + c.Choose("threshold", 2)
			part := c.Choose("zero part", 4)
			f := c.Choose("encrypted", 8)
			who := c.Choose("complainer", 2)
			ns := fx.Nodes(e.Label("complain"), 2)
			ad := []byte("zero")
			_, rs := fx.LSeed(e.Label("zero complaint", kind))
			r := ref.Shape(newOperation(e, kind, 2, 2).secret(1), rs, t)
			zeroAt(r, who, part)
			plain := r.Plain(2)
			p := append([]*big.Int{}, plain[who]...)
			last := len(p) - 1
			switch f {
			case 1:
				p[0] = ref.Add(p[0], ref.I(1))
			case 2:
				p[last] = ref.Add(p[last], ref.I(5))
			case 3:
				p[0] = ref.Add(p[0], ref.I(1))
				p[last] = ref.Add(p[last], ref.I(1))
			case 4:
				p[0], p[last] = ref.I(0), ref.I(0)
			case 5:
				p[0] = ref.I(0)
			case 6:
				p[last] = ref.I(0)
			case 7:
				p[0], p[last] = p[last], p[0]
			}
			plain[who] = p
			r.Cipher = ref.Encrypt(r.CipherKind(), rs.Derive("e"), plain, fx.RPKs(ns), 1, ad)
			d := fromRef(r)
			l := d.lib()
			c.Key("zero", kind, t, part, f, who)
			what := fmt.Sprintf("dealing committing to %s for receiver %d who gets %s", hexes(r.Share(who)), who, hexes(p))
			for i := range ns {
				ls, crs := fx.LSeed(e.Label("complaint seed"))
				got, err := complaints.GenerateComplaints(fx.DealMap(map[int]*dealings.IDkgDealingInternal{1: l}), ad, common.NodeIndex(i), lsk(ns[i].Sk), lpk(ns[i].Pk), ls)
				checkSet(c, what, got, err, map[int]*anyDealing{1: d}, crs, i, ns, ad)
				// made whether or not there is a reason
				ls, crs = fx.LSeed(e.Label("complaint seed"))
				x, err := complaints.NewComplaintInternal(ls, l, 1, common.NodeIndex(i), lsk(ns[i].Sk), lpk(ns[i].Pk), ad)
				c.Check(err == nil, "creation", "%v", err)
				sh, pr := ref.NewComplaint(crs, d.cipher.Eph, 1, i, ns[i].Sk, ad)
				checkComplaint(c, what, x, complaint{sh, pr}, l, d, 1, i, ns[i].Pk, ad)
			}
			// private verification agrees
			checkPrivate(c, what, l, d, 1, who, ad, ns[who].Sk, ns[who].Pk)
		},
	}, {
		Name:  "large-committees",
		Bound: fmt.Sprintf("both commitment kinds, committees of sizes and thresholds %v; a complaint by the first, a middle and the last receiver about right and wrong shares", largeSizes(e)),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			sizes := largeSizes(e)
			sz := sizes[c.Choose("committee", len(sizes))]
			n, t := sz[0], sz[1]
			isBad := c.Bool("wrong")
			ns := fx.Nodes(e.Label("large committee"), n)
			ad := []byte("large")
			_, rs := fx.LSeed(e.Label("large complaint", kind, n))
			r := ref.Shape(newOperation(e, kind, 2, 2).secret(1), rs, t)
			r.Commit = ref.Commit(r.Values, r.Mask, t)
			plain := r.Plain(n)
			for i := range plain {
				if isBad {
					plain[i] = append([]*big.Int{}, plain[i]...)
					plain[i][0] = ref.Add(plain[i][0], ref.I(1))
				}
			}
			r.Cipher = ref.Encrypt(r.CipherKind(), rs.Derive("e"), plain, fx.RPKs(ns), 1, ad)
			d := fromRef(r)
			c.Key("large", kind, n, t, isBad)
			for _, i := range []int{0, n / 2, n - 1} {
				ls, crs := fx.LSeed(e.Label("complaint seed"))
				got, err := complaints.GenerateComplaints(fx.DealMap(map[int]*dealings.IDkgDealingInternal{1: d.lib()}), ad, common.NodeIndex(i), lsk(ns[i].Sk), lpk(ns[i].Pk), ls)
				checkSet(c, dealName(kind, n, t), got, err, map[int]*anyDealing{1: d}, crs, i, ns, ad)
			}
		},
	}, {
		Name:  "many-dealings",
		Bound: "a receiver complains about {12, 16, 17, 33, 40} dealings of which the bad ones are: none, the first, the last, every other, all",
		Run: func(c *explore.Ctx) {
			nd := []int{12, 16, 17, 33, 40}[c.Choose("dealings", 5)]
			f := c.Choose("bad", 5)
			ns := fx.Nodes(e.Label("complain"), 2)
			ad := []byte("many")
			dm := map[int]*dealings.IDkgDealingInternal{}
			rd := map[int]*anyDealing{}
			for d := 0; d < nd; d++ {
				isBad := f == 1 && d == 0 || f == 2 && d == nd-1 || f == 3 && d%2 == 1 || f == 4
				_, rs := fx.LSeed(e.Label("many complaints", d))
				r := ref.Shape(ref.Secret{Kind: ref.KRandom}, rs, 1)
				r.Commit = ref.Commit(r.Values, r.Mask, 1)
				plain := r.Plain(2)
				if isBad {
					plain[1] = []*big.Int{plain[1][0], ref.Add(plain[1][1], ref.I(1))}
				}
				r.Cipher = ref.Encrypt(ref.Pair, rs.Derive("e"), plain, fx.RPKs(ns), d, ad)
				rd[d] = fromRef(r)
				dm[d] = rd[d].lib()
			}
			c.Key("many", nd, f)
			ls, crs := fx.LSeed(e.Label("complaint seed"))
			got, err := complaints.GenerateComplaints(fx.DealMap(dm), ad, 1, lsk(ns[1].Sk), lpk(ns[1].Pk), ls)
			checkSet(c, fmt.Sprintf("%d dealings, bad ones in form %d", nd, f), got, err, rd, crs, 1, ns, ad)
		},
	}}
}

func largeRecoveries(e Env) []*explore.Space {
	ts := Pick(e, []int{1, 2, 12, 13, 16, 17, 33}, []int{1, 2, 8, 9, 12, 13, 16, 17, 24, 32, 33, 40, 64, 65})
	return []*explore.Space{{
		Name:  "many-openers",
		Bound: fmt.Sprintf("both commitment kinds x thresholds %v x {one less, as many, one more, 7 more} openers, neighbouring or spread, x 3 targets, all openings right or the last one off", ts),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			t := ts[c.Choose("threshold", len(ts))]
			n := t + []int{-1, 0, 1, 7}[c.Choose("openers", 4)]
			first, step := 1, 1
			if c.Bool("spread") {
				first, step = 240, 5
			}
			target := []int{0, 41, 245}[c.Choose("share of", 3)]
			off := c.Bool("one off")
			r, com := shapeOf(e, kind, t)
			om := map[int]poly.CommitmentOpening{}
			idx := indexSet(n, first, step)
			for _, i := range idx {
				om[i] = fx.Opening(r.Share(i))
			}
			altered := off && n > 0 && idx[n-1] != target
			if off && !altered {
				c.Skip()
			}
			if altered {
				v := append([]*big.Int{}, r.Share(idx[n-1])...)
				v[len(v)-1] = ref.Add(v[len(v)-1], ref.I(1))
				om[idx[n-1]] = fx.Opening(v)
			}
			c.Key(kind, t, n, first, target, off)
			got, err := dealings.ReconstructShareFromOpenings(&dealings.IDkgDealingInternal{Commitment: com}, fx.OpenMap(om), common.NodeIndex(target))
			what := fmt.Sprintf("threshold %d: share of %d from %d openings from %d on", t, target, n, first)
			switch {
			case n < t:
				c.Check(err != nil, "too few openings", "%s: %s", what, fx.ShowOp(got))
			case altered:
				c.Check(err != nil || fx.OpEq(got, r.Share(target)), "another share", "%s: %s", what, fx.ShowOp(got))
			default:
				c.Check(err == nil && fx.OpEq(got, r.Share(target)), "recovered share", "%s: %s (%s), want %s", what, fx.ShowOp(got), errStr(err), hexes(r.Share(target)))
			}
			c.Outcome(err == nil, altered)
			c.Eval(1)
		},
	}, {
		Name:  "zero-shares",
		Bound: "both commitment kinds x thresholds 1..3; one node's share is zero in value, mask or both; every node's share is recovered from every subset of 5 nodes' openings of at least the threshold (quick: at most one more), and with the first or that node's own one replaced by zeros",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			t := 1 + c.Choose("threshold", 3)
			who := c.Choose("zero share of", 5)
			part := 1 + c.Choose("part", 3)
			if kind == ref.KUnmasked && part > 1 {
				c.Skip()
			}
			r, _ := shapeOf(e, kind, t)
			zeroAt(r, who, part)
			com := fx.Commitment(r.Pedersen(), r.Commit)
			subs := fx.Subsets(5, t, Pick(e, min(t+1, 4), 5))
			s := subs[c.Choose("openers", len(subs))]
			target := c.Choose("share of", 6)
			wiped := c.Choose("replaced by zeros", 3) - 1
			if wiped == 1 {
				for wiped = len(s) - 1; wiped > 0 && s[wiped] != who; wiped-- {
				}
				if wiped == 0 {
					c.Skip()
				}
			}
			om := map[int]poly.CommitmentOpening{}
			altered := false
			for k, i := range s {
				v := r.Share(i)
				if k == wiped {
					z := make([]*big.Int, len(v))
					for j := range z {
						z[j] = ref.I(0)
					}
					altered = hexes(z) != hexes(v)
					v = z
				}
				om[i] = fx.Opening(v)
			}
			c.Key(kind, t, who, part, s, target, wiped)
			got, err := dealings.ReconstructShareFromOpenings(&dealings.IDkgDealingInternal{Commitment: com}, fx.OpenMap(om), common.NodeIndex(target))
			want := r.Share(target)
			what := fmt.Sprintf("threshold %d, the share of %d is %s: share of %d from openings of %v", t, who, hexes(r.Share(who)), target, s)
			if altered {
				c.Check(err != nil || fx.OpEq(got, want), "another share", "%s, one replaced by zeros: %s", what, fx.ShowOp(got))
			} else {
				c.Check(err == nil && fx.OpEq(got, want), "recovered share", "%s: %s (%s), want %s", what, fx.ShowOp(got), errStr(err), hexes(want))
			}
			c.Outcome(err == nil, altered)
			c.Eval(1)
		},
	}}
}

func largeInterpolation(e Env) []*explore.Space {
	ns := Pick(e, []int{11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65}, []int{11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257})
	return []*explore.Space{{
		Name:  "lagrange-many",
		Bound: fmt.Sprintf("%v node indices in order, reversed, spread, or with the last one repeating the first", ns),
		Run: func(c *explore.Ctx) {
			n := ns[c.Choose("indices", len(ns))]
			idx := indexSet(n, 0, 1)
			switch c.Choose("form", 4) {
			case 1:
				idx = indexSet(n, n-1, -1)
			case 2:
				idx = indexSet(n, 200, 7)
			case 3:
				idx[n-1] = idx[0]
			}
			lagrangeCheck(c, e, idx, []*big.Int{ref.I(0), ref.I(int64(n + 5)), ref.I(3)}, false)
		},
	}, {
		Name:  "interpolation-many",
		Bound: fmt.Sprintf("%v samples of polynomials of full, half and smallest degree, or with the last abscissa repeating the first", ns),
		Run: func(c *explore.Ctx) {
			n := ns[c.Choose("samples", len(ns))]
			f := make(ref.Poly, []int{n, n / 2, 1}[c.Choose("degree", 3)])
			for i := range f {
				f[i] = randScalar(e, "many", i)
			}
			rep := c.Bool("repeat")
			var X, Y []*big.Int
			for i := 0; i < n; i++ {
				x := ref.I(int64(i*3 + 1))
				if rep && i == n-1 {
					x = X[0]
				}
				X, Y = append(X, x), append(Y, f.Eval(x))
			}
			interpolateCheck(c, X, Y)
		},
	}}
}

func largeExact(e Env) []*explore.Space {
	sizes := largeSizes(e)
	return []*explore.Space{{
		Name:  "large-committees",
		Bound: fmt.Sprintf("4 kinds of dealing for committees of sizes and thresholds %v: every part of the dealing, the shares of the first, a middle and the last receiver", sizes),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			sz := sizes[c.Choose("committee", len(sizes))]
			n, t := sz[0], sz[1]
			d := n / 2
			ns := fx.Nodes(e.Label("large committee"), n)
			o := cachedOperation(e, kind, 2, 2)
			ad := []byte("large")
			what := dealName(kind, n, t)
			c.Key(kind, n, t)
			l, r := dealOne(c, what, o, e.Label("exact large"), t, ns, d, ad)
			for _, i := range []int{0, n / 2, n - 1} {
				got, err := dealings.CommitmentOpening.OpenDealing(l, ad, common.NodeIndex(d), common.NodeIndex(i), ns[i].Fresh().SK, ns[i].Fresh().PK)
				c.Check(err == nil && fx.OpEq(got, r.Share(i)), "share", "%s: share of %d is %s (%s), want %s", what, i, fx.ShowOp(got), errStr(err), hexes(r.Share(i)))
			}
			c.Eval(4)
		},
	}}
}

func largeQuorums(e Env) []*explore.Space {
	ts := Pick(e, []int{5, 10, 12, 13, 14, 16, 17, 33}, []int{5, 8, 9, 10, 12, 13, 14, 16, 17, 22, 24, 32, 33, 64, 65})
	r := requests(e)[0]
	return []*explore.Space{{
		Name:  "large-quorums",
		Bound: fmt.Sprintf("thresholds %v; one too few, exactly enough, 1 or 7 spare signers, with neighbouring or spread indices", ts),
		Run: func(c *explore.Ctx) {
			t := ts[c.Choose("threshold", len(ts))]
			n := t + []int{-1, 0, 1, 7}[c.Choose("signers", 4)]
			who := indexSet(n, 0, 1)
			if c.Bool("spread") {
				who = indexSet(n, 230, 7)
			}
			c.Key(t, who)
			quorum(c, fmt.Sprintf("threshold %d, %d signers from %d", t, n, who[0]), cachedQuintuple(e, "quorum", t), r, t, who)
		},
	}}
}

func largeSigners(e Env) []*explore.Space {
	ts := Pick(e, []int{5, 13, 17, 33}, []int{5, 8, 12, 13, 16, 17, 24, 33, 64, 65})
	r := requests(e)[0]
	return []*explore.Space{{
		Name:  "large-committees",
		Bound: fmt.Sprintf("transcripts with thresholds %v; 8 signers with indices up to 65537; right shares, shares off in each part, shares presented as each other's", ts),
		Run: func(c *explore.Ctx) {
			t := ts[c.Choose("threshold", len(ts))]
			ks := []int{0, 12, 27, 39, 127, 255, 256, 65537}
			i := ks[c.Choose("signer", len(ks))]
			q := cachedQuintuple(e, "sign", t)
			num, den := q.refShare(r, i)
			f := c.Choose("edit", 5)
			switch f {
			case 1, 2:
				num[f-1] = ref.Add(num[f-1], ref.I(1))
			case 3, 4:
				den[f-3] = ref.Neg(den[f-3])
			}
			c.Key("large", t, i, f)
			for _, j := range ks {
				if j == i || f == 0 {
					q.checkShare(c, fmt.Sprintf("threshold %d, share of %d in form %d as that of %d", t, i, f, j), r, j, num, den)
				}
			}
		},
	}}
}
