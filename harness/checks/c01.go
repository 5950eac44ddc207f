package checks

import (
	"fmt"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/tidwall/btree"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C01",
		Level: "model_checking",
		Rule: "one execution is one signing by one set of nodes after one protocol history; the outcome (error, or the signature) is compared with the model and with textbook ECDSA and btcec; " +
			"distinct means distinct (history, request, set of signers)",
		Assume: []string{"all nodes are honest except where a dealing is corrupted on purpose", "the key and presignature are not the identity"},
		Spaces: c01Spaces,
	})
}

// accept checks a signature against every oracle.
func acceptSignature(c *explore.Ctx, what string, q *quintuple, r ref.Request, sig *sign.ThresholdEcdsaCombinedSigInternal) {
	rr, s, high := q.refSignature(r)
	c.Check(fx.SEq(sig.R, rr) && fx.SEq(sig.S, s), "signature", "%s: (%x, %x), want (%x, %x)", what, sig.R.Serialize(), sig.S.Serialize(), rr, s)
	c.Check(s.Cmp(ref.HalfN) <= 0 && !sig.S.IsHigh(), "high s", "%s", what)
	pk, err := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: q.key.com[0].Bytes()}, fx.Path(r.Path))
	c.Check(err == nil, "public key", "%s: %v", what, err)
	p, ok := ref.DecodePoint(pk.PublicKey)
	c.Check(ok && ref.VerifyECDSA(p, r.Hash, fx.BI(sig.R), fx.BI(sig.S)), "ecdsa", "%s: the signature is not valid for the derived key %x", what, pk.PublicKey)
	if len(r.Hash) > 0 {
		c.Check(btcVerify(p, r.Hash, fx.BI(sig.R), fx.BI(sig.S)), "ecdsa", "%s: btcec refuses the signature", what)
	}
	err = sig.Verify(fx.Path(r.Path), r.Hash, r.Randomness, q.key.transcript(), q.kappa.transcript(), fx.K)
	c.Check(err == nil, "verification", "%s: the library refuses its own signature: %v", what, err)
	c.Outcome(high)
	c.Eval(1)
}

func c01Spaces(e Env) []*explore.Space {
	var sp []*explore.Space
	rs := requests(e)
	nMax := Pick(e, 6, 8)
	sp = append(sp, &explore.Space{
		Name:  "quorums",
		Bound: fmt.Sprintf("thresholds 1..4 x every set of 0..%d nodes as signers x 2 requests (one whose s is high before normalisation, one whose s is low); with too few also under a too large set of requests' thresholds", nMax),
		Run: func(c *explore.Ctx) {
			t := 1 + c.Choose("threshold", 4)
			q := cachedQuintuple(e, "quorum", t)
			subs := fx.Subsets(nMax, 0, nMax)
			who := subs[c.Choose("signers", len(subs))]
			r := highLow(q, rs)[c.Choose("request", 2)]
			quorum(c, fmt.Sprintf("threshold %d, signers %v", t, who), q, r, t, who)
			c.Key(t, who, showRequest(r))
		},
	}, &explore.Space{
		Name:  "requests",
		Bound: fmt.Sprintf("%d requests (hash lengths 0..64, boundary hashes, randomness 0..300 bytes, paths of 0..4 indices) x every set of at least 2 out of 3 signers with threshold 2", len(rs)),
		Run: func(c *explore.Ctx) {
			r := rs[c.Choose("request", len(rs))]
			q := cachedQuintuple(e, "quorum", 2)
			subs := fx.Subsets(3, 2, 3)
			who := subs[c.Choose("signers", len(subs))]
			quorum(c, fmt.Sprintf("%s, signers %v", showRequest(r), who), q, r, 2, who)
			c.Key(who, showRequest(r))
		},
	}, &explore.Space{
		Name:  "signer-indices",
		Bound: "thresholds 1..3, every set of signers of threshold size out of the indices {0,1,127,128,255,256,65535,65536,2^31-1}",
		Run: func(c *explore.Ctx) {
			idx := []int{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1}
			t := 1 + c.Choose("threshold", 3)
			q := cachedQuintuple(e, "quorum", t)
			subs := fx.Subsets(len(idx), t, t)
			var who []int
			for _, k := range subs[c.Choose("signers", len(subs))] {
				who = append(who, idx[k])
			}
			quorum(c, fmt.Sprintf("threshold %d, signers %v", t, who), q, rs[0], t, who)
			c.Key(t, who)
		},
	}, &explore.Space{
		Name:  "incomplete-shares",
		Bound: "threshold 2 and 3: every set of at most 4 signers of which every subset sends an empty share: an error, or the one signature",
		Run: func(c *explore.Ctx) {
			t := 2 + c.Choose("threshold", 2)
			q := cachedQuintuple(e, "quorum", t)
			subs := fx.Subsets(4, 1, 4)
			who := subs[c.Choose("signers", len(subs))]
			m := map[int]*sign.ThresholdEcdsaSigShareInternal{}
			empty := 0
			for _, i := range who {
				if c.Bool(fmt.Sprint("empty ", i)) {
					m[i] = &sign.ThresholdEcdsaSigShareInternal{}
					empty++
				} else {
					m[i] = cachedShare(c, e, q, "quorum", rs[0], t, i)
				}
			}
			c.Key(t, who, empty)
			sig, err := q.libSignature(rs[0], t, m)
			what := fmt.Sprintf("threshold %d, signers %v, %d of them without a share", t, who, empty)
			switch {
			case empty == 0 && len(who) >= t:
				c.Check(err == nil, "signature", "%s: %v", what, err)
				acceptSignature(c, what, q, rs[0], sig)
			case len(who)-empty < t:
				c.Check(err != nil, "too few signers", "%s give a signature", what)
			case err == nil:
				acceptSignature(c, what, q, rs[0], sig)
			}
			c.Outcome(err == nil)
			c.Eval(1)
		},
	}, &explore.Space{
		Name:  "solved-signatures",
		Bound: "thresholds 1..3, 4 hashes: keys solved so that s is each boundary scalar before normalisation; signed by the first nodes or all",
		Run: func(c *explore.Ctx) {
			t := 1 + c.Choose("threshold", 3)
			r := rs[[]int{0, 2, 9, 24}[c.Choose("hash", 4)]]
			r.Path = nil
			sa := scalarAlphabet(e)
			s := sa[c.Choose("s", len(sa))]
			if s.Sign() == 0 {
				c.Skip()
			}
			q := cachedQuintuple(e, "quorum", t).solveSignature(r, s)
			if _, got, _ := q.refSignature(r); got.Cmp(ref.LowS(s)) != 0 || q.key.v[0].Sign() == 0 {
				panic("harness: the signature is not solved")
			}
			who := firstN(t + c.Choose("more signers", 2))
			c.Key(t, showRequest(r), s, who)
			quorum(c, fmt.Sprintf("threshold %d, %s, signers %v, s = %x", t, showRequest(r), who, s), q, r, t, who)
		},
	}, &explore.Space{
		Name:  "solved-shares",
		Bound: "thresholds 2 and 3, 3 signers out of which each has a share with zero or coinciding parts in 9 ways: every quorum makes the one signature",
		Run: func(c *explore.Ctx) {
			t := 2 + c.Choose("threshold", 2)
			i := c.Choose("signer", 3)
			q, name := cachedQuintuple(e, "quorum", t).solveShare(rs[0], i, c.Choose("way", solvedParts))
			subs := fx.Subsets(4, t, 4)
			who := subs[c.Choose("signers", len(subs))]
			c.Key(t, i, name, who)
			quorum(c, fmt.Sprintf("threshold %d, signers %v, share of %d with %s", t, who, i, name), q, rs[0], t, who)
		},
	}, &explore.Space{
		Name:  "protocol",
		Bound: "complete runs by 3 nodes (4 with threshold 2): key and presignature by random dealing and masked resharing, both products, every choice of minimal dealer set for the resharings, a key reshared once more or not, one dealing of the run bad for one receiver and recovered through complaint and openings (none, or each of the steps); every quorum signs with the library's own openings",
		Run:   func(c *explore.Ctx) { protocolRun(c, e) },
	}, &explore.Space{
		Name:  "committees",
		Bound: fmt.Sprintf("complete honest runs for every committee size 1..%d and threshold t with 2t-1 nodes available, dealers all or as few as needed; every quorum signs, every smaller set fails", Pick(e, 5, 7)),
		Run:   func(c *explore.Ctx) { committeeRun(c, e, Pick(e, 5, 7)) },
	})
	sp = append(sp, largeQuorums(e)...)
	return sp
}

// highLow finds two requests whose s is normalised, and not.
func highLow(q *quintuple, rs []ref.Request) [2]ref.Request {
	var out [2]ref.Request
	for _, r := range rs {
		if _, _, high := q.refSignature(r); high {
			out[0] = r
		} else {
			out[1] = r
		}
	}
	return out
}

func cachedShare(c *explore.Ctx, e Env, q *quintuple, label string, r ref.Request, t, i int) *sign.ThresholdEcdsaSigShareInternal {
	k := fmt.Sprint("share", e.Seed, label, t, i, showRequest(r))
	if v, ok := sharingCache.Load(k); ok {
		return fx.DeepCopy(v.(*sign.ThresholdEcdsaSigShareInternal))
	}
	s, err := q.libShare(r, i, 0)
	c.Check(err == nil, "share", "%s: %v", showRequest(r), err)
	sharingCache.Store(k, fx.DeepCopy(s))
	return s
}

// quorum signs with the given nodes.
func quorum(c *explore.Ctx, what string, q *quintuple, r ref.Request, t int, who []int) {
	m := map[int]*sign.ThresholdEcdsaSigShareInternal{}
	for _, i := range who {
		s, err := q.libShare(r, i, 0)
		c.Check(err == nil, "share", "%s: %v", what, err)
		m[i] = s
	}
	signAndCheck(c, what, q, r, t, m)
}

func signAndCheck(c *explore.Ctx, what string, q *quintuple, r ref.Request, t int, m map[int]*sign.ThresholdEcdsaSigShareInternal) {
	sig, err := q.libSignature(r, t, m)
	if len(m) < t {
		c.Check(err != nil, "too few signers", "%s give a signature", what)
		c.Check(sig == nil, "too few signers", "%s: a signature comes with the error", what)
		c.Outcome("too few")
		c.Eval(1)
		return
	}
	c.Check(err == nil, "signature", "%s: %v", what, err)
	acceptSignature(c, what, q, r, sig)
}

// party is the whole committee during a protocol run.
type party struct {
	e    Env
	c    *explore.Ctx
	ns   []fx.Node
	n    int
	t    int
	ad   []byte
	bad  string // step in which a dealing is bad
	trap int    // for this receiver
}

// step runs one operation by library objects only; one dealing may be bad for
// one receiver, who complains and is helped by the others.
func (p *party) step(label string, o operation, t int, dealers []int, a, b *held) *held {
	c := p.c
	s := stepSpec{label: p.e.Label("run", label), o: o, t: t, n: p.n, dealers: dealers, ad: append([]byte("run "), label...), verify: true}
	if p.bad != label {
		return runHeld(c, s, 0, a, b, p.ns)
	}
	after, want := refStep(s)
	lib := map[int]*dealings.IDkgDealingInternal{}
	for k, d := range dealers {
		if k == 0 {
			_, x := scriptedDealing(p.e, o, fmt.Sprint(s.label, "/", d), t, p.ns, d, s.ad, func(i int) bool { return i == p.trap })
			lib[d] = x.lib()
			continue
		}
		var x, y poly.CommitmentOpening
		if a != nil {
			x = a.l.opens[d]
		}
		if b != nil {
			y = b.l.opens[d]
		}
		sd, _ := fx.LSeed(fmt.Sprint(s.label, "/", d))
		l, err := dealings.NewIDkgDealingInternal(libSecret(o.kind, x, y), fx.K, sd, t, fx.PKs(p.ns), common.NodeIndex(d), s.ad)
		c.Check(err == nil, "dealing", "%s: %v", s.show(), err)
		lib[d] = l
	}
	var op dealings.IDkgTranscriptOperationInternal
	switch o.kind {
	case ref.KRandom:
		op = &dealings.RandomTranscript{}
	case ref.KUnmasked:
		op = &dealings.ReshareOfUnmaskedTranscript{P1: a.l.tr.CombinedCommitment}
	case ref.KMasked:
		op = &dealings.ReshareOfMaskedTranscript{P1: a.l.tr.CombinedCommitment}
	case ref.KProduct:
		op = &dealings.UnmaskedTimesMaskedTranscript{Left: a.l.tr.CombinedCommitment, Right: b.l.tr.CombinedCommitment}
	}
	for d, l := range lib {
		err := l.PubliclyVerify(fx.K, op, t, common.NodeIndex(d), p.n, s.ad)
		c.Check(err == nil, "verification", "%s: the dealing of %d is refused: %v", s.show(), d, err)
	}
	dm := fx.DealMap(lib)
	tr, err := dealings.NewTranscriptInternal(fx.K, t, dm, op)
	c.Check(err == nil && fx.CommitEq(tr.CombinedCommitment, after.ped, after.com), "transcript", "%s: %s", s.show(), errStr(err))
	l := libStep{tr, make([]poly.CommitmentOpening, p.n)}
	for i := range p.ns {
		o, err := dealings.CommitmentOpening.FromDealings(dm, tr.CombinedCommitment, s.ad, common.NodeIndex(i), p.ns[i].SK, p.ns[i].PK)
		if i != p.trap {
			c.Check(err == nil && fx.OpEq(o, after.share(i)), "opening", "%s: receiver %d: %s", s.show(), i, errStr(err))
			l.opens[i] = o
			continue
		}
		c.Check(err != nil, "opening", "%s: receiver %d opens a bad dealing", s.show(), i)
		// the complaint, and the openings of everybody who can help
		sd, _ := fx.LSeed(s.label + "/complaint")
		cs, err := complaints.GenerateComplaints(dm, s.ad, common.NodeIndex(i), p.ns[i].SK, p.ns[i].PK, sd)
		c.Check(err == nil && cs.Len() == 1, "complaint", "%s: %s", s.show(), errStr(err))
		x, ok := cs.Get(common.NodeIndex(dealers[0]))
		c.Check(ok, "complaint", "%s: no complaint about dealer %d", s.show(), dealers[0])
		err = x.Verify(lib[dealers[0]], common.NodeIndex(dealers[0]), common.NodeIndex(i), p.ns[i].PK, s.ad)
		c.Check(err == nil, "complaint", "%s: %v", s.show(), err)
		om := map[int]poly.CommitmentOpening{}
		for j := range p.ns {
			if j == i {
				continue
			}
			v, err := dealings.CommitmentOpening.OpenDealing(lib[dealers[0]], s.ad, common.NodeIndex(dealers[0]), common.NodeIndex(j), p.ns[j].SK, p.ns[j].PK)
			c.Check(err == nil, "opening", "%s: helper %d: %v", s.show(), j, err)
			om[j] = v
		}
		help := &btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]]{}
		help.Set(common.NodeIndex(dealers[0]), fx.OpenMap(om))
		got, err := dealings.CommitmentOpening.FromDealingsAndOpenings(dm, help, tr.CombinedCommitment, s.ad, common.NodeIndex(i), p.ns[i].SK, p.ns[i].PK)
		c.Check(err == nil && fx.OpEq(got, after.share(i)), "recovered opening", "%s: receiver %d: %s (%s), want %s", s.show(), i, fx.ShowOp(got), errStr(err), hexes(after.share(i)))
		l.opens[i] = got
	}
	checkSecret(c, s, l, after, want)
	c.State(after.show())
	c.Step(1)
	return &held{after, l, p.ns}
}

// sign lets every set of nodes sign with the held openings.
func (p *party) sign(keyH, kappa, lambda, kl, xl *held, r ref.Request) {
	c := p.c
	t := p.t
	q := &quintuple{keyH.m, kappa.m, lambda.m, kl.m, xl.m}
	shares := make([]*sign.ThresholdEcdsaSigShareInternal, p.n)
	for i := range shares {
		s, err := sign.NewThresholdEcdsaSigShareInternal(fx.Path(r.Path), r.Hash, r.Randomness, keyH.l.tr, kappa.l.tr, lambda.l.opens[i], kl.l.opens[i], xl.l.opens[i], fx.K)
		c.Check(err == nil, "share", "node %d: %v", i, err)
		err = s.Verify(fx.Path(r.Path), r.Hash, r.Randomness, common.NodeIndex(i), keyH.l.tr, kappa.l.tr, lambda.l.tr, kl.l.tr, xl.l.tr, fx.K)
		c.Check(err == nil, "share", "the share of node %d is refused: %v", i, err)
		shares[i] = s
	}
	var first *sign.ThresholdEcdsaCombinedSigInternal
	for _, who := range fx.Subsets(p.n, 0, p.n) {
		m := map[int]*sign.ThresholdEcdsaSigShareInternal{}
		for _, i := range who {
			m[i] = shares[i]
		}
		sig, err := sign.NewThresholdEcdsaCombinedSigInternal(fx.Path(r.Path), r.Hash, r.Randomness, keyH.l.tr, kappa.l.tr, t, shareMap(m), fx.K)
		c.Eval(1)
		if len(who) < t {
			c.Check(err != nil && sig == nil, "too few signers", "%v give a signature with threshold %d", who, t)
			continue
		}
		c.Check(err == nil, "signature", "signers %v: %v", who, err)
		if first == nil {
			acceptSignature(c, fmt.Sprintf("signers %v", who), q, r, sig)
			err = sig.Verify(fx.Path(r.Path), r.Hash, r.Randomness, keyH.l.tr, kappa.l.tr, fx.K)
			c.Check(err == nil, "verification", "signers %v: %v", who, err)
			first = sig
		}
		c.Check(sig.R.Equal(first.R) == 1 && sig.S.Equal(first.S) == 1, "signature", "signers %v give another signature", who)
	}
}

func firstN(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func protocolRun(c *explore.Ctx, e Env) {
	t := 1 + c.Choose("threshold", 2)
	n := 3
	p := &party{e: e, c: c, n: n, t: t}
	steps := []string{"", "key", "kappa", "lambda", "key open", "kappa open", "kappa*lambda", "key*lambda"}
	p.bad = steps[c.Choose("bad step", len(steps))]
	if p.bad != "" {
		p.trap = c.Choose("trapped", Pick(e, 1, 3)) + Pick(e, 1, 0)
	}
	if p.bad != "" && n-1 < 2*t-1 && t > 1 {
		p.n = 4 // somebody must be able to help
	}
	p.ns = fx.Nodes(e.Label("run"), p.n)
	minimal := fx.Subsets(3, t, t)
	pick := func(name string) []int { return minimal[c.Choose(name, len(minimal))] }
	again := p.bad == "" && c.Bool("reshared again")
	x0 := p.step("key", operation{kind: ref.KRandom}, t, []int{0, 1}, nil, nil)
	k0 := p.step("kappa", operation{kind: ref.KRandom}, t, []int{1, 2}, nil, nil)
	l := p.step("lambda", operation{kind: ref.KRandom}, t, []int{0, 2}, nil, nil)
	x := p.step("key open", operation{kind: ref.KMasked, p1: x0.m}, t, pick("key dealers"), x0, nil)
	k := p.step("kappa open", operation{kind: ref.KMasked, p1: k0.m}, t, pick("presignature dealers"), k0, nil)
	if again {
		x = p.step("key again", operation{kind: ref.KUnmasked, p1: x.m}, t, []int{0, 1, 2}, x, nil)
	}
	kl := p.step("kappa*lambda", operation{kind: ref.KProduct, p1: k.m, p2: l.m}, t, firstN(2*t-1), k, l)
	xl := p.step("key*lambda", operation{kind: ref.KProduct, p1: x.m, p2: l.m}, t, firstN(2*t-1), x, l)
	rs := requests(e)
	p.sign(x, k, l, kl, xl, rs[len(rs)-1])
	c.Key(t, p.bad, p.trap, again, x.m.show(), k.m.show())
}

func committeeRun(c *explore.Ctx, e Env, nMax int) {
	n := 1 + c.Choose("nodes", nMax)
	t := 1 + c.Choose("threshold", (n+1)/2)
	all := c.Bool("all dealers")
	p := &party{e: e, c: c, n: n, t: t, ns: fx.Nodes(e.Label("run"), n)}
	d := func(k int) []int {
		if all {
			k = n
		}
		return firstN(k)
	}
	x0 := p.step("key", operation{kind: ref.KRandom}, t, d(1), nil, nil)
	k0 := p.step("kappa", operation{kind: ref.KRandom}, t, d(1), nil, nil)
	l := p.step("lambda", operation{kind: ref.KRandom}, t, d(1), nil, nil)
	x := p.step("key open", operation{kind: ref.KMasked, p1: x0.m}, t, d(t), x0, nil)
	k := p.step("kappa open", operation{kind: ref.KMasked, p1: k0.m}, t, d(t), k0, nil)
	kl := p.step("kappa*lambda", operation{kind: ref.KProduct, p1: k.m, p2: l.m}, t, d(2*t-1), k, l)
	xl := p.step("key*lambda", operation{kind: ref.KProduct, p1: x.m, p2: l.m}, t, d(2*t-1), x, l)
	rs := requests(e)
	p.sign(x, k, l, kl, xl, rs[c.Choose("request", 2)*(len(rs)-1)])
	c.Key(n, t, all)
}
