package checks

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/tidwall/btree"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C08",
		Level: "fault_enumeration",
		Rule: "one execution creates or verifies one signature share with a chosen set of deviations; the share's values and the verdict are compared with a reference; distinct means distinct " +
			"(share, signer, request, transcripts)",
		Assume: []string{"nobody knows a discrete logarithm between the generators", "the key and presignature are not the identity"},
		Spaces: c08Spaces,
	})
}

func shareMap(m map[int]*sign.ThresholdEcdsaSigShareInternal) *btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal] {
	out := &btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]{}
	for i, s := range m {
		out.Set(common.NodeIndex(i), s)
	}
	return out
}

func shareIs(s *sign.ThresholdEcdsaSigShareInternal, num, den [2]*big.Int) bool {
	return s != nil && fx.SameParts(s, nil, num[0], num[1], den[0], den[1])
}

func c08Spaces(e Env) []*explore.Space {
	var sp []*explore.Space
	rs := requests(e)
	sp = append(sp, &explore.Space{
		Name:  "honest",
		Bound: fmt.Sprintf("%d requests (hash lengths 0..64, boundary hashes, randomness 0..300 bytes, paths of 0..4 indices) x thresholds 1..3 x 3 signers (and index 65536), openings by value or reference; every share verified for every signer", len(rs)),
		Run: func(c *explore.Ctx) {
			r := rs[c.Choose("request", len(rs))]
			t := 1 + c.Choose("threshold", 3)
			signers := []int{0, 1, 65536}
			i := signers[c.Choose("signer", 3)]
			form := 0
			if t == 2 {
				form = c.Choose("form", 2)
			}
			q := cachedQuintuple(e, "sign", t)
			c.Key(showRequest(r), t, i, form)
			num, den := q.refShare(r, i)
			s, err := q.libShare(r, i, form)
			c.Check(err == nil, "creation", "%s: %v", showRequest(r), err)
			c.Check(shareIs(s, num, den), "share", "%s, signer %d: the share is not the published one", showRequest(r), i)
			for _, j := range signers {
				if j != i && t > 2 {
					continue
				}
				want := j == i || q.expectShare(r, j, num, den)
				err := q.verifyShareLib(c, s, r, j)
				c.Check((err == nil) == want, "verdict", "%s: share of %d verified as %d's: %s, want accepted=%v", showRequest(r), i, j, errStr(err), want)
				c.Outcome(want)
				c.Eval(1)
			}
		},
	}, &explore.Space{
		Name:  "solved-shares",
		Bound: "thresholds 2 and 3, shares with zero or coinciding parts in 9 ways by 3 signers, 3 requests: accepted for the signer, and every single edit of every part judged",
		Run: func(c *explore.Ctx) {
			t := 2 + c.Choose("threshold", 2)
			r := rs[[]int{0, 9, 24}[c.Choose("request", 3)]]
			i := []int{0, 1, 65536}[c.Choose("signer", 3)]
			q, name := cachedQuintuple(e, "sign", t).solveShare(r, i, c.Choose("way", solvedParts))
			num, den := q.refShare(r, i)
			c.Key(t, showRequest(r), i, name)
			what := fmt.Sprintf("%s, share of %d with %s", showRequest(r), i, name)
			s, err := q.libShare(r, i, 0)
			c.Check(err == nil, "creation", "%s: %v", what, err)
			c.Check(shareIs(s, num, den), "share", "%s: not the published one", what)
			q.checkShare(c, what, r, i, num, den)
			q.checkShare(c, what+", exchanged", r, i, den, num)
			for k := 0; k < 4; k++ {
				for x := 0; x < scalarEdits; x++ {
					parts := []*big.Int{num[0], num[1], den[0], den[1]}
					_, parts[k] = scalarEdit(x, parts[k])
					if t == 3 && x > 2 {
						continue
					}
					q.checkShare(c, fmt.Sprintf("%s, part %d edited", what, k), r, i, two(parts[:2]), two(parts[2:]))
				}
			}
		},
	}, &explore.Space{
		Name:   "share-edits",
		Bound:  fmt.Sprint("thresholds 1 and 2, 2 signers; every combination of at most ", Pick(e, 2, 3), " deviations of numerator value and mask, denominator value and mask (8 edits each), another signer's parts, exchanged parts"),
		MaxDev: Pick(e, 2, 3),
		Run: func(c *explore.Ctx) {
			t := 1 + c.Choose("threshold", 2)
			i := c.Choose("signer", 2)
			q := cachedQuintuple(e, "sign", t)
			r := rs[0]
			num, den := q.refShare(r, i)
			onum, oden := q.refShare(r, 1-i)
			what := ""
			note := func(f string, a ...any) { what += " " + fmt.Sprintf(f, a...) }
			parts := []*big.Int{num[0], num[1], den[0], den[1]}
			other := []*big.Int{onum[0], onum[1], oden[0], oden[1]}
			names := []string{"numerator value", "numerator mask", "denominator value", "denominator mask"}
			for k := range parts {
				x := c.Dev(names[k], scalarEdits+2)
				switch {
				case x > scalarEdits:
					parts[k] = other[k]
					note("%s of the other signer", names[k])
				case x > 0:
					var nm string
					nm, parts[k] = scalarEdit(x-1, parts[k])
					note("%s %s", names[k], nm)
				}
			}
			swaps := [][2]int{{0, 1}, {2, 3}, {0, 2}, {1, 3}, {0, 3}, {1, 2}}
			if x := c.Dev("exchange", len(swaps)+1); x > 0 {
				a, b := swaps[x-1][0], swaps[x-1][1]
				parts[a], parts[b] = parts[b], parts[a]
				note("%s and %s exchanged", names[a], names[b])
			}
			c.Key(t, i, fmt.Sprint(parts))
			q.checkShare(c, fmt.Sprintf("share of %d with threshold %d:%s", i, t, what), r, i, two(parts[:2]), two(parts[2:]))
		},
	}, &explore.Space{
		Name:  "request-edits",
		Bound: "4 requests; every single change of hash, randomness and path; shares of the old request verified for the new one and the reverse",
		Run: func(c *explore.Ctx) {
			bases := []ref.Request{rs[0], {}, rs[len(rs)-Pick(e, 7, 61)], {Hash: make([]byte, 48), Randomness: make([]byte, 300), Path: [][]byte{make([]byte, 40)}}}
			r := bases[c.Choose("request", len(bases))]
			ed := requestEdits(r)
			x := ed[c.Choose("edit", len(ed))]
			q := cachedQuintuple(e, "sign", 2)
			i := 1
			from, to := r, x.r
			if c.Bool("reverse") {
				from, to = to, from
			}
			num, den := q.refShare(from, i)
			c.Key(showRequest(from), showRequest(to))
			q.checkShare(c, fmt.Sprintf("share for %s verified with %s", showRequest(from), x.name), to, i, num, den)
		},
	}, &explore.Space{
		Name:   "transcript-edits",
		Bound:  fmt.Sprintf("thresholds 1 and 2, 2 signers; every combination of at most %d deviations of the five transcripts (9 edits each), the signer and exchanged transcripts", Pick(e, 2, 3)),
		MaxDev: Pick(e, 2, 3),
		Run: func(c *explore.Ctx) {
			t := 1 + c.Choose("threshold", 2)
			i := c.Choose("signer", 2)
			q := *cachedQuintuple(e, "sign", t)
			o := cachedQuintuple(e, "other", t)
			r := rs[0]
			num, den := q.refShare(r, i)
			what := ""
			note := func(f string, a ...any) { what += " " + fmt.Sprintf(f, a...) }
			slots := []**sharing{&q.key, &q.kappa, &q.lambda, &q.kl, &q.xl}
			others := []*sharing{o.key, o.kappa, o.lambda, o.kl, o.xl}
			names := []string{"key", "presignature", "lambda", "kappa*lambda", "key*lambda"}
			for k := range slots {
				if x := c.Dev(names[k], transcriptEdits+1); x > 0 {
					var nm string
					nm, *slots[k] = transcriptEdit(x-1, *slots[k], others[k])
					note("%s %s", names[k], nm)
				}
			}
			sw := [][2]int{{0, 1}, {2, 3}, {3, 4}, {2, 4}}
			if x := c.Dev("exchange", len(sw)+1); x > 0 {
				a, b := slots[sw[x-1][0]], slots[sw[x-1][1]]
				*a, *b = *b, *a
				note("%s and %s exchanged", names[sw[x-1][0]], names[sw[x-1][1]])
			}
			idx := []int{i, 1 - i, 2, 255, 65536, 1<<31 - 1}
			j := idx[c.Dev("signer", len(idx))]
			if j != i {
				note("as signer %d", j)
			}
			c.Key(t, i, j, what)
			q.checkShare(c, fmt.Sprintf("share of %d with threshold %d:%s", i, t, what), r, j, num, den)
		},
	}, &explore.Space{
		Name:  "opening-kinds",
		Bound: "every combination of kinds (masked by value, masked by reference, simple by value, simple by reference, none) of the three openings, and every form of the presignature transcript (simple or masked, sum or interpolation)",
		Run: func(c *explore.Ctx) {
			q := *cachedQuintuple(e, "sign", 2)
			vals := [][]*big.Int{q.lambda.share(1), q.kl.share(1), q.xl.share(1)}
			ok := true
			var os [3]poly.CommitmentOpening
			what := ""
			for k := range os {
				x := c.Choose(fmt.Sprint("opening ", k), 5)
				switch x {
				case 0:
					os[k] = fx.Opening(vals[k])
				case 1:
					os[k] = fx.OpeningPtr(vals[k])
				case 2:
					os[k] = fx.Opening(vals[k][:1])
				case 3:
					os[k] = fx.OpeningPtr(vals[k][:1])
				}
				what += fmt.Sprint(x)
				ok = ok && x < 2
			}
			if x := c.Choose("presignature", 4); x > 0 {
				k := *q.kappa
				k.ped, k.summed = x&1 == 1, x&2 == 2
				q.kappa = &k
				ok = false
				what += fmt.Sprint(" presignature form ", x)
			}
			c.Key(what)
			r := rs[0]
			s, err := sign.NewThresholdEcdsaSigShareInternal(fx.Path(r.Path), r.Hash, r.Randomness, q.key.transcript(), q.kappa.transcript(), os[0], os[1], os[2], fx.K)
			c.Check((err == nil) == ok, "creation", "opening kinds %s: %s, want created=%v", what, errStr(err), ok)
			if ok {
				num, den := q.refShare(r, 1)
				c.Check(shareIs(s, num, den), "share", "opening kinds %s: the share is not the published one", what)
			} else {
				c.Check(s == nil, "share with error", "opening kinds %s: a share comes with the error", what)
			}
			c.Outcome(ok)
			c.Eval(1)
		},
	}, &explore.Space{
		Name:  "share-kinds",
		Bound: "empty shares and shares whose parts are of any kind (masked by value, simple, none): verified and combined without panic, never accepted unless both parts are masked",
		Run: func(c *explore.Ctx) {
			q := cachedQuintuple(e, "sign", 2)
			r := rs[0]
			mk := func(i int, name string) (*sign.ThresholdEcdsaSigShareInternal, bool) {
				num, den := q.refShare(r, i)
				s := fx.LShare(num, den)
				fields := fx.FieldsOf(s, reflect.TypeOf((*poly.CommitmentOpening)(nil)).Elem())
				if len(fields) == 0 {
					if c.Bool(name + " empty") {
						return &sign.ThresholdEcdsaSigShareInternal{}, false
					}
					return s, true
				}
				good := true
				for k, f := range fields {
					v := fx.OpenVals(f.Interface().(poly.CommitmentOpening))
					switch c.Choose(fmt.Sprint(name, " part ", k), 3) {
					case 1:
						f.Set(reflect.ValueOf(fx.Opening(v[:1])))
						good = false
					case 2:
						f.Set(reflect.Zero(f.Type()))
						good = false
					}
				}
				return s, good
			}
			s0, ok0 := mk(0, "first")
			s1, ok1 := mk(1, "second")
			c.Key(ok0, ok1, fx.Fingerprint(s0), fx.Fingerprint(s1))
			for k, s := range []*sign.ThresholdEcdsaSigShareInternal{s0, s1} {
				want := []bool{ok0, ok1}[k]
				err := q.verifyShareLib(c, s, r, k)
				c.Check((err == nil) == want, "verdict", "share %d: %s, want accepted=%v", k, errStr(err), want)
			}
			sig, err := q.libSignature(r, 2, map[int]*sign.ThresholdEcdsaSigShareInternal{0: s0, 1: s1})
			if ok0 && ok1 {
				rr, ss, _ := q.refSignature(r)
				c.Check(err == nil && fx.SEq(sig.R, rr) && fx.SEq(sig.S, ss), "signature", "%s", errStr(err))
			} else if err == nil {
				rr, ss, _ := q.refSignature(r)
				c.Check(sig != nil && fx.SEq(sig.R, rr) && fx.SEq(sig.S, ss), "signature", "shares with parts of the wrong kind combine to something else than the signature")
			}
			c.Outcome(ok0, ok1)
			c.Eval(3)
		},
	})
	sp = append(sp, largeSigners(e)...)
	return sp
}
