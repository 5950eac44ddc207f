package checks

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/tidwall/btree"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C06",
		Level: "fault_enumeration",
		Rule: "one execution is one set of dealings with chosen corruptions, complained about by one receiver, or one (edited) complaint verified in one context; sets, values and verdicts are " +
			"compared with an independent implementation; distinct means distinct (dealings, complaint, context) combinations",
		Assume: []string{"no accidental hash collision", "the equal-logarithm proof is sound"},
		Spaces: c06Spaces,
	})
}

// complaint is a reference complaint.
type complaint struct {
	shared ref.P
	proof  ref.Dlog
}

func newComplaint(s ref.Seed, d *anyDealing, dealer, receiver int, sk *big.Int, ad []byte) complaint {
	sh, p := ref.NewComplaint(ref.ComplaintSeed(s, dealer), d.cipher.Eph, dealer, receiver, sk, ad)
	return complaint{sh, p}
}

// valid is the reference's complaint verification.
func (k complaint) valid(d *anyDealing, dealer, complainer int, pk ref.P, ad []byte) bool {
	if !k.proof.Verify(ref.G, d.cipher.Eph, pk, k.shared, ref.ComplaintAD(ad, complainer, dealer, pk)) {
		return false
	}
	if d.ped != (d.cipher.Kind == ref.Pair) || complainer >= len(d.cipher.CT) {
		return false
	}
	return !d.opens(complainer, d.cipher.DecryptShared(dealer, complainer, ad, pk, k.shared))
}

// lib loads the complaint into a complaint object of the library (made about
// a template dealing) leaf by leaf.
func (k complaint) lib(tmpl *complaints.IDkgComplaintInternal, from complaint) *complaints.IDkgComplaintInternal {
	x := fx.DeepCopy(tmpl)
	for _, l := range fx.Leaves(x) {
		switch {
		case l.Point:
			l.SetPoint(fx.Pt(k.shared))
		case fx.SEq(l.Scalar(), from.proof.C):
			l.SetScalar(fx.S(k.proof.C))
		case fx.SEq(l.Scalar(), from.proof.R):
			l.SetScalar(fx.S(k.proof.R))
		default:
			panic("a complaint holds an unexpected scalar")
		}
	}
	return x
}

func checkComplaint(c *explore.Ctx, what string, x *complaints.IDkgComplaintInternal, k complaint, l *dealings.IDkgDealingInternal, d *anyDealing, dealer, complainer int, pk ref.P, ad []byte) bool {
	want := k.valid(d, dealer, complainer, pk, ad)
	in, intact := fx.Canary(ad)
	err := x.Verify(l, common.NodeIndex(dealer), common.NodeIndex(complainer), lpk(pk), in)
	c.Check((err == nil) == want, "verdict", "%s, verified for dealer %d and complainer %d: %s, want accepted=%v", what, dealer, complainer, errStr(err), want)
	c.Check(intact(), "input changed", "%s: the data was changed", what)
	c.Outcome(want)
	c.Eval(1)
	return want
}

func c06Spaces(e Env) []*explore.Space {
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "sets", Bound: fmt.Sprintf("4 operations, 3 receivers; %d dealings, each {good, bad for one of the receivers, bad for all, bad for the others} in value or mask; every receiver complains; every complaint is verified for every dealing and complainer", Pick(e, 2, 3)),
		Run: func(c *explore.Ctx) { complaintSets(c, e) },
	}, &explore.Space{
		Name: "dealer-indices", Bound: "bad dealings by dealers of 8 indices (several digits) in one set, each bad or good: all subsets of bad ones",
		Run: func(c *explore.Ctx) {
			idx := []int{0, 1, 2, 9, 10, 11, 100, 65537}
			if !e.Thorough {
				idx = []int{0, 1, 2, 10, 100, 65537}
			}
			ns := fx.Nodes(e.Label("complain"), 2)
			dm := map[int]*dealings.IDkgDealingInternal{}
			rd := map[int]*anyDealing{}
			ad := []byte("indices")
			bad := ""
			for _, d := range idx {
				_, rs := fx.LSeed(e.Label("ci", d))
				r := ref.Shape(ref.Secret{Kind: ref.KRandom}, rs, 1)
				r.Commit = ref.Commit(r.Values, r.Mask, 1)
				plain := r.Plain(2)
				if c.Bool("bad") {
					plain[1][0] = ref.Add(plain[1][0], ref.I(1))
					bad += fmt.Sprint(" ", d)
				}
				r.Cipher = ref.Encrypt(ref.Pair, rs.Derive("e"), plain, fx.RPKs(ns), d, ad)
				rd[d] = fromRef(r)
				dm[d] = rd[d].lib()
			}
			c.Key("indices", bad)
			ls, rs := fx.LSeed(e.Label("complaint seed"))
			got, err := complaints.GenerateComplaints(fx.DealMap(dm), ad, 1, lsk(ns[1].Sk), lpk(ns[1].Pk), ls)
			checkSet(c, "bad dealers"+bad, got, err, rd, rs, 1, ns, ad)
			_, err = complaints.GenerateComplaints(fx.DealMap(dm), ad, 0, lsk(ns[0].Sk), lpk(ns[0].Pk), ls)
			c.Check(err != nil, "no complaints", "the other receiver complains about good dealings")
		},
	}, &explore.Space{
		Name: "wide-indices", Bound: "complaints about dealers and by receivers of 9 indices up to 2^32+1, in dealings with up to 65538 entries; both kinds, bad or good; verified for the indices and for the same modulo 2^8, 2^16 and 2^32",
		Run: func(c *explore.Ctx) {
			idx := []int{0, 255, 256, 257, 65535, 65536, 65537, 1 << 32, 1<<32 + 1}
			kind := c.Choose("kind", 2)
			dealer := idx[c.Choose("dealer", len(idx))]
			who := idx[c.Choose("complainer", len(idx))]
			isBad := c.Bool("bad")
			c.Key("wide", kind, dealer, who, isBad)
			ns := fx.Nodes(e.Label("complain"), 2)
			ad := []byte("wide")
			_, rs := fx.LSeed(e.Label("wide", kind))
			r := ref.Shape(newOperation(e, kind, 2, 2).secret(1), rs, 1)
			r.Commit = ref.Commit(r.Values, r.Mask, 1)
			r.Cipher = ref.Encrypt(r.CipherKind(), rs.Derive("e"), nil, nil, dealer, ad)
			d := fromRef(r)
			n := min(who, 65537) + 1
			shared := d.cipher.Eph.Mul(ns[1].Sk)
			zero := make([]*big.Int, d.cipher.Kind)
			for i := range zero {
				zero[i] = ref.I(0)
			}
			for i := 0; i < n; i++ {
				d.cipher.CT = append(d.cipher.CT, zero)
			}
			if who < n {
				m := ref.MegaMask(d.cipher.Kind, dealer, who, ad, ns[1].Pk, d.cipher.Eph, shared)
				ct := make([]*big.Int, d.cipher.Kind)
				for i, v := range r.Share(who) {
					ct[i] = ref.Add(v, m[i])
				}
				if isBad {
					ct[len(ct)-1] = ref.Add(ct[len(ct)-1], ref.I(1))
				}
				d.cipher.CT[who] = ct
			}
			l := d.lib()
			ls, crs := fx.LSeed(e.Label("complaint seed"))
			x, err := complaints.NewComplaintInternal(ls, l, common.NodeIndex(dealer), common.NodeIndex(who), lsk(ns[1].Sk), lpk(ns[1].Pk), ad)
			c.Check(err == nil, "creation", "%v", err)
			sh, p := ref.NewComplaint(crs, d.cipher.Eph, dealer, who, ns[1].Sk, ad)
			what := fmt.Sprintf("complaint by %d about %d", who, dealer)
			c.Check(fx.SameParts(x, []ref.P{sh}, p.C, p.R), "complaint", "%s is not the published one", what)
			for _, m := range []int{1 << 40, 1 << 32, 1 << 16, 1 << 8} {
				checkComplaint(c, what, x, complaint{sh, p}, l, d, dealer%m, who, ns[1].Pk, ad)
				checkComplaint(c, what, x, complaint{sh, p}, l, d, dealer, who%m, ns[1].Pk, ad)
			}
		},
	}, &explore.Space{
		Name: "spurious", Bound: "4 operations; a complaint made by each of 3 receivers about a good dealing, and about one bad for each receiver; verified in every context",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			ns := fx.Nodes(e.Label("complain"), 3)
			target := c.Choose("bad for", 4) - 1
			who := c.Choose("complainer", 3)
			ad := []byte("spurious")
			_, rs := fx.LSeed(e.Label("spurious", kind))
			d := badDealing(e, kind, rs, 1, ns, ad, func(i, j int) bool { return i == target && j == 0 })
			l := d.lib()
			ls, crs := fx.LSeed(e.Label("complaint seed"))
			x, err := complaints.NewComplaintInternal(ls, l, 1, common.NodeIndex(who), lsk(ns[who].Sk), lpk(ns[who].Pk), ad)
			c.Check(err == nil, "creation", "%v", err)
			sh, p := ref.NewComplaint(crs, d.cipher.Eph, 1, who, ns[who].Sk, ad)
			k := complaint{sh, p}
			c.Check(fx.SameParts(x, []ref.P{sh}, p.C, p.R), "complaint", "a complaint by %d is not the published one", who)
			c.Key(kind, target, who)
			for i := 0; i < 4; i++ {
				for j := range ns {
					for _, dealer := range []int{0, 1, 2} {
						got := checkComplaint(c, fmt.Sprintf("complaint by %d about a dealing bad for %d", who, target), x, k, l, d, dealer, i, ns[j].Pk, ad)
						c.Check(!got || (i == who && j == who && target == who && dealer == 1), "oracle", "the reference accepts a spurious complaint")
					}
				}
			}
			for _, a := range adEdits(ad) {
				checkComplaint(c, "complaint with "+a.name, x, k, l, d, 1, who, ns[who].Pk, a.b)
			}
		},
	}, &explore.Space{
		Name:   "edits",
		Bound:  "both commitment kinds; a complaint by receiver 1 about a dealing bad for receiver 1 or for none; every combination of at most 2 edits of shared secret, proof scalars, fresh proofs over other statements, the dealing (all ciphertext and commitment parts), dealer, complainer, key and data",
		MaxDev: 2,
		Run:    func(c *explore.Ctx) { complaintEdits(c, e) },
	}, &explore.Space{
		Name: "forged", Bound: "complaints about good and bad dealings made without or with another's key: every claimed shared secret {true, off by G, identity, another receiver's, the ephemeral key} with every proof {by own key, another's key, for another receiver, dealer, key or data, without one of them}",
		Run: func(c *explore.Ctx) { forgedComplaints(c, e) },
	}, &explore.Space{
		Name: "data-lengths", Bound: "associated data of every length with every edit",
		Run: func(c *explore.Ctx) {
			ads := adAlphabet(e)
			ad := ads[c.Choose("data", len(ads))]
			ed := adEdits(ad)
			x := ed[c.Choose("edit", len(ed))]
			ns := fx.Nodes(e.Label("complain"), 2)
			_, rs := fx.LSeed(e.Label("cl"))
			d := badDealing(e, ref.KRandom, rs, 1, ns, ad, func(i, j int) bool { return i == 1 })
			l := d.lib()
			ls, crs := fx.LSeed(e.Label("complaint seed"))
			k, err := complaints.NewComplaintInternal(ls, l, 1, 1, lsk(ns[1].Sk), lpk(ns[1].Pk), ad)
			c.Check(err == nil, "creation", "%v", err)
			sh, p := ref.NewComplaint(crs, d.cipher.Eph, 1, 1, ns[1].Sk, ad)
			c.Key(ad, x.b)
			c.Check(fx.SameParts(k, []ref.P{sh}, p.C, p.R), "complaint", "not the published one for %d bytes of data", len(ad))
			c.Check(checkComplaint(c, "complaint", k, complaint{sh, p}, l, d, 1, 1, ns[1].Pk, ad), "oracle", "rejected")
			checkComplaint(c, "complaint with "+x.name, k, complaint{sh, p}, l, d, 1, 1, ns[1].Pk, x.b)
		},
	})
	sp = append(sp, zeroComplaints(e)...)
	return sp
}

// badDealing deals correctly except that bad(i, j) plaintexts are off by one.
func badDealing(e Env, kind int, rs ref.Seed, dealer int, ns []fx.Node, ad []byte, bad func(i, j int) bool) *anyDealing {
	o := newOperation(e, kind, 2, 2)
	t := min(2, len(ns))
	r := fx.RefDeal(o.secret(dealer), e.Label("base", kind, dealer), t, ns, dealer, ad)
	plain := r.Plain(len(ns))
	for i := range plain {
		for j := range plain[i] {
			if bad(i, j) {
				plain[i][j] = ref.Add(plain[i][j], ref.I(1))
			}
		}
	}
	d := fromRef(r)
	d.cipher = ref.Encrypt(d.cipher.Kind, rs.Derive("bad"), plain, fx.RPKs(ns), dealer, ad)
	return d
}

// checkSet compares a set of complaints.
func checkSet(c *explore.Ctx, what string, got *btree.Map[common.NodeIndex, *complaints.IDkgComplaintInternal], err error, rd map[int]*anyDealing, rs ref.Seed, who int, ns []fx.Node, ad []byte) map[int]*complaints.IDkgComplaintInternal {
	want := map[int]bool{}
	for d, r := range rd {
		if !r.private(d, who, ad, ns[who].Sk, ns[who].Pk) {
			want[d] = true
		}
	}
	c.Eval(1)
	if len(want) == 0 {
		c.Check(err != nil, "no complaints", "%s: receiver %d complains about good dealings", what, who)
		return nil
	}
	c.Check(err == nil, "complaints", "%s: receiver %d: %v", what, who, err)
	out := map[int]*complaints.IDkgComplaintInternal{}
	got.Scan(func(d common.NodeIndex, x *complaints.IDkgComplaintInternal) bool {
		out[int(d)] = x
		return true
	})
	var diff []string
	for d := range rd {
		if _, ok := out[d]; ok != want[d] {
			diff = append(diff, fmt.Sprintf("dealing %d complained about: %v", d, ok))
		}
	}
	c.Check(len(diff) == 0 && len(out) == len(want), "complaints", "%s: receiver %d: %s", what, who, strings.Join(diff, ", "))
	for d, x := range out {
		k := newComplaint(rs, rd[d], d, who, ns[who].Sk, ad)
		c.Check(fx.SameParts(x, []ref.P{k.shared}, k.proof.C, k.proof.R), "complaint", "%s: the complaint by %d against %d is not the published one", what, who, d)
		ok := checkComplaint(c, what, x, k, rd[d].lib(), rd[d], d, who, ns[who].Pk, ad)
		c.Check(ok, "oracle", "%s: the reference rejects a true complaint", what)
	}
	return out
}

func complaintSets(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 4)
	nd := Pick(e, 2, 3)
	ns := fx.Nodes(e.Label("complain"), 3)
	ad := adAlphabet(e)[6]
	dm := map[int]*dealings.IDkgDealingInternal{}
	rd := map[int]*anyDealing{}
	what := kindNames[kind]
	for d := 0; d < nd; d++ {
		mode := c.Choose("corruption", 8)
		second := false
		if mode > 0 && (kind == ref.KRandom || kind == ref.KProduct) {
			second = c.Bool("in the mask")
		}
		_, rs := fx.LSeed(e.Label("set", kind, d))
		rd[d] = badDealing(e, kind, rs, d, ns, ad, func(i, j int) bool { return mode>>i&1 == 1 && (j == 1) == second })
		dm[d] = rd[d].lib()
		what += fmt.Sprintf(" dealing %d bad for mask %03b second=%v", d, mode, second)
	}
	who := c.Choose("receiver", 3)
	c.Key(what, who)
	ls, rs := fx.LSeed(e.Label("complaint seed"))
	in, intact := fx.Canary(ad)
	bm := fx.DealMap(dm)
	got, err := complaints.GenerateComplaints(bm, in, common.NodeIndex(who), lsk(ns[who].Sk), lpk(ns[who].Pk), ls)
	out := checkSet(c, what, got, err, rd, rs, who, ns, ad)
	c.Check(intact() && bm.Len() == nd, "input changed", "%s: inputs were changed", what)
	// presented elsewhere
	for d, x := range out {
		k := newComplaint(rs, rd[d], d, who, ns[who].Sk, ad)
		for d2 := range rd {
			for i := range ns {
				if d2 == d && i == who {
					continue
				}
				checkComplaint(c, what+", transplanted", x, k, dm[d2], rd[d2], d2, i, ns[i].Pk, ad)
				checkComplaint(c, what+", transplanted", x, k, dm[d], rd[d], d2, i, ns[i].Pk, ad)
			}
		}
	}
}

func complaintEdits(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 2)
	target := 1 - c.Choose("bad for receiver 1 or none", 2)*3
	ns := fx.Nodes(e.Label("complain"), 3)
	ad, dealer, who := adAlphabet(e)[6], 1, 1
	_, rs := fx.LSeed(e.Label("cedit", kind))
	d := badDealing(e, kind, rs, dealer, ns, ad, func(i, j int) bool { return i == target && j == 0 })
	ls, crs := fx.LSeed(e.Label("complaint seed"))
	tmpl, err := complaints.NewComplaintInternal(ls, d.lib(), common.NodeIndex(dealer), common.NodeIndex(who), lsk(ns[who].Sk), lpk(ns[who].Pk), ad)
	c.Check(err == nil, "creation", "%v", err)
	sh, p := ref.NewComplaint(crs, d.cipher.Eph, dealer, who, ns[who].Sk, ad)
	base := complaint{sh, p}
	c.Check(fx.SameParts(tmpl, []ref.P{sh}, p.C, p.R), "complaint", "not the published one")
	k := base
	what := ""
	pk := ns[who].Pk
	// the dealing
	for i := range d.com {
		if x := c.Dev(fmt.Sprint("commitment ", i), pointEdits+1); x > 0 {
			var n string
			n, d.com[i] = pointEdit(x-1, d.com[i])
			what += fmt.Sprintf(" commitment %d %s", i, n)
		}
	}
	if c.Dev("commitment kind", 2) == 1 {
		d.ped = !d.ped
		what += " commitment of the other kind"
	}
	what += cipherEdit(c, &d.cipher, ref.Beta(d.cipher.Kind, rs.Derive("bad")), rs.Derive("bad"), dealer, ad, Pick(e, 4, scalarEdits), Pick(e, 4, pointEdits))
	// the complaint
	if x := c.Dev("shared secret", pointEdits+4); x > 0 {
		var n string
		switch x {
		case pointEdits + 1:
			n, k.shared = "of receiver 2", d.cipher.Eph.Mul(ns[2].Sk)
		case pointEdits + 2:
			n, k.shared = "of the dealing as it is", d.cipher.Eph.Mul(ns[who].Sk)
		case pointEdits + 3:
			n, k.shared = "replaced by the key", pk
		default:
			n, k.shared = pointEdit(x-1, k.shared)
		}
		what += " shared secret " + n
	}
	switch x := c.Dev("proof", 2*scalarEdits+4); {
	case x == 0:
	case x <= scalarEdits:
		var n string
		n, k.proof.C = scalarEdit(x-1, k.proof.C)
		what += " challenge " + n
	case x <= 2*scalarEdits:
		var n string
		n, k.proof.R = scalarEdit(x-1-scalarEdits, k.proof.R)
		what += " response " + n
	case x == 2*scalarEdits+1:
		k.proof.C, k.proof.R = k.proof.R, k.proof.C
		what += " proof scalars exchanged"
	case x == 2*scalarEdits+2:
		k.shared, k.proof = ref.NewComplaint(crs.Derive("fresh"), d.cipher.Eph, dealer, who, ns[who].Sk, ad)
		what += " fresh complaint"
	case x == 2*scalarEdits+3:
		k.shared, k.proof = ref.NewComplaint(crs.Derive("fresh"), d.cipher.Eph, dealer, 2, ns[2].Sk, ad)
		what += " complaint of receiver 2"
	}
	// the context
	ed := adEdits(ad)
	if x := c.Dev("data", len(ed)+1); x > 0 {
		ad = ed[x-1].b
		what += " " + ed[x-1].name
	}
	if x := c.Dev("dealer", 6); x > 0 {
		dealer = []int{1, 0, 2, 257, 1 + 1<<16, 1 + 1<<32}[x]
		what += " other dealer"
	}
	if x := c.Dev("complainer", 7); x > 0 {
		who = []int{1, 0, 2, 3, 257, 1 + 1<<16, 1 + 1<<32}[x]
		what += " other complainer"
	}
	if x := c.Dev("key", 5); x > 0 {
		pk = []ref.P{pk, ns[0].Pk, ns[2].Pk, pk.Neg(), ref.Identity()}[x]
		what += " other key"
	}
	c.Key(kind, target, what)
	if checkComplaint(c, "edited complaint:"+what, k.lib(tmpl, base), k, d.lib(), d, dealer, who, pk, ad) {
		c.Outcome("accepted", what)
	}
}

func forgedComplaints(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 2)
	target := 1 - c.Choose("bad for receiver 1 or none", 2)*3
	ns := fx.Nodes(e.Label("complain"), 3)
	ad, dealer, who := adAlphabet(e)[3], 1, 1
	_, rs := fx.LSeed(e.Label("cforge", kind))
	d := badDealing(e, kind, rs, dealer, ns, ad, func(i, j int) bool { return i == target && j == 0 })
	ls, crs := fx.LSeed(e.Label("complaint seed"))
	tmpl, err := complaints.NewComplaintInternal(ls, d.lib(), common.NodeIndex(dealer), common.NodeIndex(who), lsk(ns[who].Sk), lpk(ns[who].Pk), ad)
	c.Check(err == nil, "creation", "%v", err)
	sh, p := ref.NewComplaint(crs, d.cipher.Eph, dealer, who, ns[who].Sk, ad)
	base := complaint{sh, p}
	eph, pk := d.cipher.Eph, ns[who].Pk
	k := complaint{}
	claim := c.Choose("shared secret", 5)
	k.shared = []ref.P{sh, sh.Add(ref.G), ref.Identity(), eph.Mul(ns[2].Sk), eph}[claim]
	own := c.Choose("prover", 2)
	sk := ns[[]int{who, 2}[own]].Sk
	omit := c.Choose("context", 9)
	cad := ref.ComplaintAD(ad, who, dealer, pk)
	switch omit {
	case 1:
		cad = ref.ComplaintAD(ad, 2, dealer, pk)
	case 2:
		cad = ref.ComplaintAD(ad, who, 2, pk)
	case 3:
		cad = ref.ComplaintAD(ad, who, dealer, ns[2].Pk)
	case 4:
		cad = ref.ComplaintAD(nil, who, dealer, pk)
	case 5:
		cad = ad
	case 6:
		cad = nil
	case 7: // receiver and dealer exchanged
		cad = ref.ComplaintAD(ad, dealer+1, who, pk)
	case 8:
		cad = append(append([]byte{}, cad...), 0)
	}
	r := randScalar(e, "forge")
	ch := ref.DlogChallenge(ref.G, eph, pk, k.shared, ref.MulG(r), eph.Mul(r), cad)
	k.proof = ref.Dlog{C: ch, R: ref.Add(ref.Mul(sk, ch), r)}
	what := fmt.Sprintf("complaint with shared secret %d, prover %d, context %d, dealing bad for %d", claim, own, omit, target)
	c.Key(kind, what)
	l := d.lib()
	got := checkComplaint(c, what, k.lib(tmpl, base), k, l, d, dealer, who, pk, ad)
	c.Check(!got || (claim == 0 && own == 0 && omit == 0 && target == who), "oracle", "%s: the reference accepts", what)
	for i := range ns {
		checkComplaint(c, what, k.lib(tmpl, base), k, l, d, dealer, i, ns[i].Pk, ad)
	}
}
