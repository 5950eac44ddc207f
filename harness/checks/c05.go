package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C05",
		Level: "fault_enumeration",
		Rule: "one execution is one dealing (possibly edited consistently or not) verified privately and opened by every receiver; verdicts and openings are compared with an independent " +
			"decryption and evaluation of the commitment; distinct means distinct (dealing, context, receiver) combinations",
		Assume: []string{"no accidental hash collision", "nobody knows a discrete logarithm between the generators"},
		Spaces: c05Spaces,
	})
}

func c05Spaces(e Env) []*explore.Space {
	ads := adAlphabet(e)
	nMax := Pick(e, 4, 6)
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "honest", Bound: fmt.Sprintf("4 operations x 1..%d receivers x every threshold; every receiver under every index with every key pair; neighbouring dealers and data", nMax),
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			n := 1 + c.Choose("receivers", nMax)
			t := 1 + c.Choose("threshold", n)
			dealer := []int{0, 2, 300}[c.Choose("dealer", 3)]
			ad := ads[(n*3+t+dealer)%len(ads)]
			ns := fx.Nodes(e.Label("private"), n)
			what := dealName(kind, n, t)
			c.Key(kind, n, t, dealer)
			l, r := dealOne(c, what, newOperation(e, kind, 2, 2), e.Label("pv", kind, n, t), t, ns, dealer, ad)
			d := fromRef(r)
			for i := range ns {
				c.Check(checkPrivate(c, what, l, d, dealer, i, ad, ns[i].Sk, ns[i].Pk), "oracle", "%s: the reference rejects an honest dealing", what)
				c.Check(hexes(d.plain(dealer, i, ad, ns[i].Sk, ns[i].Pk)) == hexes(r.Share(i)), "oracle", "%s: reference plaintext", what)
			}
			for i := 0; i <= n; i++ {
				for k := range ns {
					if i != k {
						checkPrivate(c, what+", another's key", l, d, dealer, i, ad, ns[k].Sk, ns[k].Pk)
						if i < n {
							checkPrivate(c, what+", another's secret key", l, d, dealer, i, ad, ns[k].Sk, ns[i].Pk)
							checkPrivate(c, what+", another's public key", l, d, dealer, i, ad, ns[i].Sk, ns[k].Pk)
						}
					}
				}
			}
			for _, x := range []int{0, 1, dealer + 1, dealer + 256, dealer + 1<<32} {
				checkPrivate(c, what+", stated dealer", l, d, x, 0, ad, ns[0].Sk, ns[0].Pk)
			}
			for _, x := range adEdits(ad) {
				checkPrivate(c, what+" "+x.name, l, d, dealer, n-1, x.b, ns[n-1].Sk, ns[n-1].Pk)
			}
		},
	}, &explore.Space{
		Name: "shares", Bound: "both commitment kinds, 3 receivers, thresholds 1..3; every assignment of {right, off in value, off in mask, the next receiver's, negated} plaintexts to the receivers, encrypted correctly",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			t := 1 + c.Choose("threshold", 3)
			ns := fx.Nodes(e.Label("private"), 3)
			_, rs := fx.LSeed(e.Label("shares"))
			r := ref.Shape(newOperation(e, kind, 2, 2).secret(1), rs, t)
			r.Commit = ref.Commit(r.Values, r.Mask, t)
			plain := r.Plain(3)
			what := ""
			for i := range plain {
				p := append([]*big.Int{}, plain[i]...)
				f := c.Choose(fmt.Sprint("plaintext ", i), 5)
				what += fmt.Sprint(" ", f)
				switch f {
				case 1:
					p[0] = ref.Add(p[0], ref.I(1))
				case 2:
					p[len(p)-1] = ref.Add(p[len(p)-1], ref.I(1))
				case 3:
					p = r.Share(i + 1)
				case 4:
					for j := range p {
						p[j] = ref.Neg(p[j])
					}
				}
				plain[i] = p
			}
			r.Cipher = ref.Encrypt(r.CipherKind(), rs.Derive("e"), plain, fx.RPKs(ns), 1, ads[2])
			d := fromRef(r)
			c.Key(kind, t, what)
			l := d.lib()
			for i := range ns {
				got := checkPrivate(c, fmt.Sprintf("%s with plaintexts%s", dealName(kind, 3, t), what), l, d, 1, i, ads[2], ns[i].Sk, ns[i].Pk)
				good := hexes(plain[i]) == hexes(r.Share(i))
				c.Check(got == good, "oracle", "the reference verdict for receiver %d of%s", i, what)
			}
		},
	}, &explore.Space{
		Name: "mixed-kinds", Bound: "every pair of ciphertext kind and commitment kind, value and mask polynomials out of {random, zero, constant}, 1..2 receivers, thresholds 1..2, the encrypted mask out of {right, zero, one}",
		Run: func(c *explore.Ctx) {
			ck := 1 + c.Choose("ciphertext kind", 2)
			ped := c.Bool("commitment with mask")
			n := 1 + c.Choose("receivers", 2)
			t := 1 + c.Choose("threshold", n)
			mk := func(what string) ref.Poly {
				p := make(ref.Poly, t)
				f := c.Choose(what, 3)
				for i := range p {
					p[i] = ref.I(0)
					if f == 0 || f == 2 && i == 0 {
						p[i] = randScalar(e, what, i)
					}
				}
				return p
			}
			v, m := mk("value"), mk("mask")
			if kind := map[bool]int{false: ref.Single, true: ref.Pair}[ped]; kind == ck && n > 1 && !e.Thorough {
				c.Skip() // covered by the other spaces
			}
			enc := c.Choose("encrypted mask", 3)
			ns := fx.Nodes(e.Label("private"), n)
			_, rs := fx.LSeed(e.Label("mixed"))
			plain := make([][]*big.Int, n)
			for i := range plain {
				plain[i] = []*big.Int{v.At(i), []*big.Int{m.At(i), ref.I(0), ref.I(1)}[enc]}[:ck]
			}
			com := m
			if !ped {
				com = nil
			}
			d := &anyDealing{ped: ped, com: ref.Commit(v, com, t), cipher: ref.Encrypt(ck, rs, plain, fx.RPKs(ns), 1, ads[2])}
			what := fmt.Sprintf("ciphertext kind %d, masked commitment %v, values %s masks %s, encrypted mask %d", ck, ped, hexes(v), hexes(m), enc)
			c.Key(what, n, t)
			l := d.lib()
			for i := range ns {
				c.Outcome(checkPrivate(c, what, l, d, 1, i, ads[2], ns[i].Sk, ns[i].Pk))
			}
		},
	}, &explore.Space{
		Name:   "edits",
		Bound:  "both commitment kinds, 3 receivers, threshold 2 (thorough: 1 too); every combination of at most 2 edits of commitment points, commitment kind and length, plaintexts before encryption (so that several edits may agree), ciphertext parts, data, dealer",
		MaxDev: 2,
		Run:    func(c *explore.Ctx) { privateEdits(c, e) },
	}, &explore.Space{
		Name: "shifted", Bound: "both commitment kinds, 3 receivers, threshold 1..2; the committed polynomial shifted by {0, 1, x, 1+x} in value and mask independently of the encrypted shares, which are shifted by each of the same for each receiver",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 2)
			t := 1 + c.Choose("threshold", 2)
			ns := fx.Nodes(e.Label("private"), 3)
			_, rs := fx.LSeed(e.Label("shifted"))
			r := ref.Shape(newOperation(e, kind, 2, 2).secret(1), rs, t)
			plain := r.Plain(3)
			shift := func(v *big.Int, f, i int) *big.Int {
				if f&1 == 1 {
					v = ref.Add(v, ref.I(1))
				}
				if f&2 == 2 {
					v = ref.Add(v, ref.I(int64(i+1)))
				}
				return v
			}
			w := ""
			for i := range plain {
				f := c.Choose(fmt.Sprint("share ", i), 4)
				w += fmt.Sprint(" ", f)
				for j := range plain[i] {
					plain[i][j] = shift(plain[i][j], f, i)
				}
			}
			polys := []ref.Poly{r.Values}
			if r.Mask != nil {
				polys = append(polys, r.Mask)
			}
			for _, p := range polys {
				f := c.Choose("polynomial", 4)
				w += fmt.Sprint("/", f)
				if f&1 == 1 {
					p[0] = ref.Add(p[0], ref.I(1))
				}
				if f&2 == 2 {
					if t < 2 {
						c.Skip()
					}
					p[1] = ref.Add(p[1], ref.I(1))
				}
			}
			r.Commit = ref.Commit(r.Values, r.Mask, t)
			r.Cipher = ref.Encrypt(r.CipherKind(), rs.Derive("e"), plain, fx.RPKs(ns), 1, ads[2])
			d := fromRef(r)
			c.Key(kind, t, w)
			l := d.lib()
			for i := range ns {
				checkPrivate(c, "shifted"+w, l, d, 1, i, ads[2], ns[i].Sk, ns[i].Pk)
			}
		},
	}, &explore.Space{
		Name: "curves", Bound: "verification for another curve",
		Run: func(c *explore.Ctx) {
			kind := c.Choose("operation", 4)
			ns := fx.Nodes(e.Label("private"), 2)
			l, _ := dealOne(c, "dealing", newOperation(e, kind, 1, 1), e.Label("cv"), 1, ns, 0, nil)
			c.Check(l.PrivateVerify(fx.K+1, ns[0].SK, ns[0].PK, nil, 0, common.NodeIndex(0)) != nil, "curve", "a dealing verifies for another curve")
			c.Check(l.PrivateVerify(fx.K, ns[0].SK, ns[0].PK, nil, 0, common.NodeIndex(0)) == nil, "verdict", "an honest dealing is rejected")
		},
	})
	sp = append(sp, largeShares(e)...)
	return sp
}

func privateEdits(c *explore.Ctx, e Env) {
	kind := c.Choose("operation", 2)
	t := 2 - c.Choose("threshold", Pick(e, 1, 2))
	se, pe := Pick(e, 3, scalarEdits), Pick(e, 3, pointEdits)
	ad, dealer := adAlphabet(e)[6], 1
	ns := fx.Nodes(e.Label("private"), 3)
	_, rs := fx.LSeed(e.Label("private edits"))
	r := ref.Shape(newOperation(e, kind, 2, 2).secret(dealer), rs, t)
	r.Commit = ref.Commit(r.Values, r.Mask, t)
	plain := r.Plain(3)
	what := ""
	for i := range plain {
		plain[i] = append([]*big.Int{}, plain[i]...)
		for j := range plain[i] {
			if x := c.Dev(fmt.Sprintf("plaintext %d.%d", i, j), se+1); x > 0 {
				var n string
				n, plain[i][j] = scalarEdit(x-1, plain[i][j])
				what += fmt.Sprintf(" plaintext %d.%d %s", i, j, n)
			}
		}
	}
	r.Cipher = ref.Encrypt(r.CipherKind(), rs.Derive("e"), plain, fx.RPKs(ns), dealer, ad)
	d := fromRef(r)
	for i := range d.com {
		if x := c.Dev(fmt.Sprint("commitment ", i), pe+1); x > 0 {
			var n string
			n, d.com[i] = pointEdit(x-1, d.com[i])
			what += fmt.Sprintf(" commitment %d %s", i, n)
		}
	}
	switch c.Dev("commitment", 4) {
	case 1:
		d.ped = !d.ped
		what += " commitment of the other kind"
	case 2:
		d.com = append(d.com, ref.G)
		what += " point appended"
	case 3:
		d.com = append(d.com, ref.Identity())
		what += " identity appended"
	}
	what += cipherEdit(c, &d.cipher, ref.Beta(d.cipher.Kind, rs.Derive("e")), rs.Derive("e"), dealer, ad, se, pe)
	ed := adEdits(ad)
	if x := c.Dev("data", len(ed)+1); x > 0 {
		ad = ed[x-1].b
		what += " " + ed[x-1].name
	}
	if x := c.Dev("dealer", 5); x > 0 {
		dealer = []int{1, 0, 2, 257, 1 + 1<<32}[x]
		what += " other dealer"
	}
	c.Key(kind, t, what)
	l := d.lib()
	bad := ""
	for i := range ns {
		if !checkPrivate(c, "edited:"+what, l, d, dealer, i, ad, ns[i].Sk, ns[i].Pk) {
			bad += fmt.Sprint(i)
		}
	}
	c.Outcome("rejected by", bad)
	switch c.Dev("reader", 3) {
	case 1:
		for i := 0; i < 4; i++ {
			checkPrivate(c, "edited, another's keys:"+what, l, d, dealer, i, ad, ns[(i+1)%3].Sk, ns[(i+1)%3].Pk)
		}
	case 2:
		for i := range ns {
			checkPrivate(c, "edited, another's secret key:"+what, l, d, dealer, i, ad, ns[(i+1)%3].Sk, ns[i].Pk)
		}
	}
}
