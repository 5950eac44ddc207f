package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"

	"verif/harness/explore"
	"verif/harness/fx"
	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:    "C10",
		Level: "fault_enumeration",
		Rule: "one execution is one ciphertext (kind, recipients, plaintexts, data) with a combination of edits, read by every recipient; acceptance and plaintexts are compared with an independent " +
			"implementation of the scheme; distinct means distinct (ciphertext, context, recipient) combinations",
		Assume: []string{"SHA-256, hash-to-curve reference and reference group arithmetic are correct", "no accidental hash collision"},
		Spaces: c10Spaces,
	})
}

func encryptLib(kind int, label string, plain [][]*big.Int, pks []*mega.MEGaPublicKey, dealer int, ad []byte) (mega.MEGaCiphertext, error) {
	s, _ := fx.LSeed(label)
	if kind == ref.Single {
		ps := make([]curve.EccScalar, len(plain))
		for i := range plain {
			ps[i] = fx.S(plain[i][0])
		}
		c, err := mega.EncryptCiphertextSingle(s, ps, pks, common.NodeIndex(dealer), ad)
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	ps := make([][2]curve.EccScalar, len(plain))
	for i := range plain {
		ps[i] = [2]curve.EccScalar{fx.S(plain[i][0]), fx.S(plain[i][1])}
	}
	c, err := mega.EncryptCiphertextPair(s, ps, pks, common.NodeIndex(dealer), ad)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// decryptLib decrypts with the private key, or from a shared secret when sk is nil.
func decryptLib(x mega.MEGaCiphertext, ad []byte, dealer, recipient int, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey, shared curve.EccPoint) ([]*big.Int, error) {
	d, r := common.NodeIndex(dealer), common.NodeIndex(recipient)
	switch c := x.(type) {
	case *mega.MEGaCiphertextSingle:
		var s curve.EccScalar
		var err error
		if sk != nil {
			s, err = c.Decrypt(ad, d, r, sk, pk)
		} else {
			s, err = c.DecryptFromSharedSecret(ad, d, r, pk, shared)
		}
		if err != nil {
			return nil, err
		}
		return []*big.Int{fx.BI(s)}, nil
	case *mega.MEGaCiphertextPair:
		var s [2]curve.EccScalar
		var err error
		if sk != nil {
			s, err = c.Decrypt(ad, d, r, sk, pk)
		} else {
			s, err = c.DecryptFromSharedSecret(ad, d, r, pk, shared)
		}
		if err != nil {
			return nil, err
		}
		return []*big.Int{fx.BI(s[0]), fx.BI(s[1])}, nil
	}
	return nil, fmt.Errorf("unknown ciphertext %T", x)
}

// checkReading has one recipient read the ciphertext and compares the outcome.
func checkReading(c *explore.Ctx, what string, x mega.MEGaCiphertext, r ref.Cipher, ad []byte, dealer, recipient int, sk *big.Int, pk ref.P) {
	ok := r.PopOK(dealer, ad) && recipient < len(r.CT)
	in, intact := fx.Canary(ad)
	lsk, lpk := mega.NewMEGaPrivateKey(fx.S(sk)), mega.NewMEGaPublicKey(fx.Pt(pk))
	got, err := decryptLib(x, in, dealer, recipient, lsk, lpk, nil)
	c.Check((err == nil) == ok, "acceptance", "%s: recipient %d with dealer %d: %s, want accepted=%v", what, recipient, dealer, errStr(err), ok)
	c.Outcome(ok)
	shared := r.Eph.Mul(sk)
	if ok {
		want := r.DecryptShared(dealer, recipient, ad, pk, shared)
		c.Check(hexes(got) == hexes(want), "plaintext", "%s: recipient %d reads %s, want %s", what, recipient, hexes(got), hexes(want))
	}
	if recipient < len(r.CT) {
		want := r.DecryptShared(dealer, recipient, ad, pk, shared)
		got, err := decryptLib(x, in, dealer, recipient, nil, lpk, fx.Pt(shared))
		c.Check(err == nil && hexes(got) == hexes(want), "plaintext from shared secret", "%s: recipient %d reads %s (%s), want %s", what, recipient, hexes(got), errStr(err), hexes(want))
	} else {
		_, err := decryptLib(x, in, dealer, recipient, nil, lpk, fx.Pt(shared))
		c.Check(err != nil, "acceptance", "%s: recipient %d of %d reads from the shared secret", what, recipient, len(r.CT))
	}
	c.Check(intact(), "input changed", "%s: the data was changed", what)
	c.Check(fx.CipherDiff(x, r) == "", "input changed", "%s: reading changed the ciphertext: %s", what, fx.CipherDiff(x, r))
	c.Eval(3)
}

func checkValidity(c *explore.Ctx, what string, x mega.MEGaCiphertext, r ref.Cipher, ad []byte, dealer int) {
	for n := max(0, len(r.CT)-1); n <= len(r.CT)+1; n++ {
		ok := n == len(r.CT) && r.PopOK(dealer, ad)
		err := x.CheckValidity(n, ad, common.NodeIndex(dealer))
		c.Check((err == nil) == ok, "validity", "%s: checked for %d recipients and dealer %d: %s, want accepted=%v", what, n, dealer, errStr(err), ok)
	}
	ct := mega.MEGaCiphertextType(r.Kind - 1)
	c.Check(x.CType() == ct && x.VerifyIs(ct, fx.K) == nil && x.VerifyIs(1-ct, fx.K) != nil && x.VerifyIs(ct, fx.K+1) != nil, "kind", "%s: kind", what)
	c.Check(x.Recipients() == len(r.CT), "recipients", "%s: %d recipients", what, x.Recipients())
	c.Eval(4)
}

var dealers = []int{0, 1, 2, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<62 - 1}

func c10Spaces(e Env) []*explore.Space {
	sa := scalarAlphabet(e)
	ads := adAlphabet(e)
	pa := pointAlphabet(e)
	nMax := Pick(e, 6, 12)
	plainOf := func(label string, kind, n int) [][]*big.Int {
		out := make([][]*big.Int, n)
		for i := range out {
			for j := 0; j < kind; j++ {
				out[i] = append(out[i], randScalar(e, label, i, j))
			}
		}
		return out
	}
	var sp []*explore.Space
	sp = append(sp, &explore.Space{
		Name: "round-trip", Bound: fmt.Sprintf("both kinds x 1..%d recipients x %d dealer indices x %d lengths of data; every recipient (and one index too many) reads; compared scalar by scalar", nMax, len(dealers), len(ads)),
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			n := 1 + c.Choose("recipients", nMax)
			d := dealers[c.Choose("dealer", len(dealers))]
			ad := ads[c.Choose("data", len(ads))]
			if !e.Thorough && n > 2 && d != 1 && len(ad) != 300 {
				c.Skip()
			}
			ns := fx.Nodes(e.Label("mega"), n)
			label := e.Label("rt", kind, n, d)
			plain := plainOf("rt", kind, n)
			c.Key(kind, n, d, ad)
			what := fmt.Sprintf("kind %d, %d recipients, %d bytes of data", kind, n, len(ad))
			in, intact := fx.Canary(ad)
			x, err := encryptLib(kind, label, plain, fx.PKs(ns), d, in)
			c.Check(err == nil, "encryption", "%s: %v", what, err)
			c.Check(intact(), "input changed", "%s: the data was changed", what)
			_, rs := fx.LSeed(label)
			r := ref.Encrypt(kind, rs, plain, fx.RPKs(ns), d, ad)
			c.Check(fx.CipherDiff(x, r) == "", "ciphertext", "%s: %s is not the published one", what, fx.CipherDiff(x, r))
			for i := 0; i <= n; i++ {
				k := min(i, n-1)
				checkReading(c, what, x, r, ad, d, i, ns[k].Sk, ns[k].Pk)
				if i < n {
					lr := r.DecryptShared(d, i, ad, ns[i].Pk, r.Eph.Mul(ns[i].Sk))
					c.Check(hexes(lr) == hexes(plain[i]), "oracle", "the reference does not round-trip")
				}
			}
			checkValidity(c, what, x, r, ad, d)
		},
	}, &explore.Space{
		Name: "plaintexts", Bound: fmt.Sprintf("3 recipients; every plaintext (pair) over %d boundary scalars at every position", len(sa)),
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			plain := plainOf("pt", kind, 3)
			i := c.Choose("position", 3)
			for j := range plain[i] {
				plain[i][j] = sa[c.Choose("plaintext", len(sa))]
			}
			c.Key(kind, i, hexes(plain[i]))
			ns := fx.Nodes(e.Label("mega"), 3)
			x, err := encryptLib(kind, e.Label("pt"), plain, fx.PKs(ns), 4, ads[3])
			what := fmt.Sprintf("plaintexts %s", hexes(plain[i]))
			c.Check(err == nil, "encryption", "%s: %v", what, err)
			for j := range ns {
				got, err := decryptLib(x, ads[3], 4, j, ns[j].Fresh().SK, ns[j].Fresh().PK, nil)
				c.Check(err == nil && hexes(got) == hexes(plain[j]), "plaintext", "%s: recipient %d reads %s (%s), want %s", what, j, hexes(got), errStr(err), hexes(plain[j]))
			}
		},
	}, &explore.Space{
		Name: "keys", Bound: fmt.Sprintf("2 recipients with every pair of secret keys out of %d boundary scalars (equal, opposite and identity keys included), both kinds", len(sa)),
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			ns := []fx.Node{fx.NodeOf(sa[c.Choose("first key", len(sa))]), fx.NodeOf(sa[c.Choose("second key", len(sa))])}
			c.Key(kind, ns[0].Sk, ns[1].Sk)
			plain := plainOf("keys", kind, 2)
			what := fmt.Sprintf("keys %x %x", ns[0].Sk, ns[1].Sk)
			x, err := encryptLib(kind, e.Label("keys"), plain, fx.PKs(ns), 4, ads[2])
			c.Check(err == nil, "encryption", "%s: %v", what, err)
			_, rs := fx.LSeed(e.Label("keys"))
			r := ref.Encrypt(kind, rs, plain, fx.RPKs(ns), 4, ads[2])
			c.Check(fx.CipherDiff(x, r) == "", "ciphertext", "%s: %s is not the published one", what, fx.CipherDiff(x, r))
			for i := range ns {
				for k := range ns {
					checkReading(c, what, x, r, ads[2], 4, i, ns[k].Sk, ns[k].Pk)
				}
			}
		},
	}, &explore.Space{
		Name:   "edits",
		Bound:  fmt.Sprintf("both kinds, 3 recipients (or, as one of the edits, 1); every combination of at most 2 edits of ephemeral key, proof public key, proof scalars (also with a fresh proof for the edited key), ciphertext scalars (also exchanged, dropped, added), dealer index and data; then every recipient reads under every index with every key pair"),
		MaxDev: 2,
		Run:    func(c *explore.Ctx) { cipherEdits(c, e, plainOf) },
	}, &explore.Space{
		Name: "data-lengths", Bound: "both kinds, 1..3 recipients; each length of data with each edit of the data, read by one recipient",
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			ad := ads[c.Choose("data", len(ads))]
			ed := adEdits(ad)
			x := ed[c.Choose("edit", len(ed))]
			n := 1 + c.Choose("recipients", 3)
			if n == 3 && len(ad) > 70 && !e.Thorough {
				c.Skip()
			}
			c.Key(kind, ad, x.b, n)
			ns := fx.Nodes(e.Label("mega"), n)
			_, rs := fx.LSeed(e.Label("dl"))
			r := ref.Encrypt(kind, rs, plainOf("dl", kind, n), fx.RPKs(ns), 3, ad)
			checkReading(c, fmt.Sprintf("%d bytes of data, %s", len(ad), x.name), fx.LCipher(r), r, x.b, 3, n-1, ns[n-1].Sk, ns[n-1].Pk)
			checkValidity(c, x.name, fx.LCipher(r), r, x.b, 3)
		},
	}, &explore.Space{
		Name: "dealer-indices", Bound: fmt.Sprintf("both kinds, 1..2 recipients; every pair of %d dealer indices at encryption and reading", len(dealers)),
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			d, d2 := dealers[c.Choose("dealer", len(dealers))], dealers[c.Choose("stated dealer", len(dealers))]
			n := 1 + c.Choose("recipients", 2)
			c.Key(kind, d, d2, n)
			ns := fx.Nodes(e.Label("mega"), n)
			_, rs := fx.LSeed(e.Label("di"))
			r := ref.Encrypt(kind, rs, plainOf("di", kind, n), fx.RPKs(ns), d, ads[2])
			checkReading(c, fmt.Sprintf("dealer %d", d), fx.LCipher(r), r, ads[2], d2, n-1, ns[n-1].Sk, ns[n-1].Pk)
			checkValidity(c, fmt.Sprintf("dealer %d", d), fx.LCipher(r), r, ads[2], d2)
		},
	}, &explore.Space{
		Name: "proof-base", Bound: fmt.Sprintf("the base point of the proof for both kinds x %d dealers x %d lengths of data x %d ephemeral keys in their representations; compared with the reference", len(dealers), len(ads), len(pa)),
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			d := dealers[c.Choose("dealer", len(dealers))]
			ad := ads[c.Choose("data", len(ads))]
			p := pa[c.Choose("ephemeral key", len(pa))]
			c.Key(kind, d, ad, p.name)
			got, err := mega.ComputePopBase(mega.MEGaCiphertextType(kind-1), fx.K, ad, common.NodeIndex(d), p.make())
			want := ref.PopBase(kind, ad, d, p.p)
			c.Check(err == nil && fx.PEq(got, want), "proof base", "kind %d, dealer %d, %d bytes of data, key %s: %s", kind, d, len(ad), p.name, errStr(err))
			c.Eval(1)
		},
	}, &explore.Space{
		Name: "ephemeral-keys", Bound: "ephemeral secret, key and proof for 16 seeds x both kinds x 3 dealers x data lengths; and verification of the proof for the other kind",
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			d := dealers[c.Choose("dealer", 3)]
			ad := ads[c.Choose("data", len(ads))]
			label := e.Label("eph", c.Choose("seed", 16))
			c.Key(kind, d, ad, label)
			ls, rs := fx.LSeed(label)
			beta, v, pub, proof, err := mega.ComputeEphKeyAndPop(mega.MEGaCiphertextType(kind-1), fx.K, ls, ad, common.NodeIndex(d))
			c.Check(err == nil, "creation", "%v", err)
			r := ref.Encrypt(kind, rs, nil, nil, d, ad)
			c.Check(fx.SEq(beta, ref.Beta(kind, rs)) && fx.PEq(v, r.Eph) && fx.PEq(pub, r.PopPub) && fx.SameParts(proof, nil, r.Pop.C, r.Pop.R), "published value", "kind %d dealer %d seed %s", kind, d, label)
			for k := 1; k <= 2; k++ {
				err := mega.VerifyPop(mega.MEGaCiphertextType(k-1), ad, common.NodeIndex(d), v, pub, proof)
				c.Check((err == nil) == (k == kind), "kind", "proof of kind %d checked as kind %d: %s", kind, k, errStr(err))
			}
			c.Eval(3)
		},
	}, &explore.Space{
		Name: "counts", Bound: "0..4 plaintexts x 0..4 recipients, both kinds",
		Run: func(c *explore.Ctx) {
			kind, n, m := 1+c.Choose("kind", 2), c.Choose("plaintexts", 5), c.Choose("recipients", 5)
			c.Key(kind, n, m)
			x, err := encryptLib(kind, e.Label("cnt"), plainOf("cnt", kind, n), fx.PKs(fx.Nodes(e.Label("mega"), m)), 1, nil)
			ok := n == m && n > 0
			c.Check((err == nil) == ok, "acceptance", "%d plaintexts for %d recipients: %s", n, m, errStr(err))
			c.Check(!ok || x.Recipients() == n, "recipients", "%d plaintexts: %d recipients", n, m)
		},
	}, &explore.Space{
		Name: "many-recipients", Bound: "ciphertexts to 255..258 recipients made by the library, and of up to 65538 entries read at the indices around 256 and 65536; both kinds",
		Run: func(c *explore.Ctx) {
			kind := 1 + c.Choose("kind", 2)
			ns := fx.Nodes(e.Label("mega"), 2)
			ad := []byte("many")
			_, rs := fx.LSeed(e.Label("many", kind))
			if c.Bool("made") {
				n := []int{255, 256, 257, 258}[c.Choose("recipients", 4)]
				c.Key(kind, n)
				plain := plainOf("many", kind, n)
				pks := make([]ref.P, n)
				lpks := make([]*mega.MEGaPublicKey, n)
				for i := range pks {
					pks[i], lpks[i] = ns[i%2].Pk, lpk(ns[i%2].Pk)
				}
				x, err := encryptLib(kind, e.Label("many", kind), plain, lpks, 1, ad)
				c.Check(err == nil, "encryption", "%d recipients: %s", n, errStr(err))
				r := ref.Encrypt(kind, rs, plain, pks, 1, ad)
				diff := fx.CipherDiff(x, r)
				c.Check(diff == "", "ciphertext", "kind %d, %d recipients: %s", kind, n, diff)
				checkReading(c, fmt.Sprintf("%d recipients", n), x, r, ad, 1, n-1, ns[(n-1)%2].Sk, pks[n-1])
				return
			}
			n := []int{257, 65537, 65538}[c.Choose("entries", 3)]
			at := []int{0, 1, 255, 256, 257, 65535, 65536, 65537, 65538, 1 << 32, 1<<32 + 1}[c.Choose("recipient", 11)]
			c.Key(kind, n, at)
			r := ref.Encrypt(kind, rs, nil, nil, 1, ad)
			for i := 0; i < n; i++ {
				ct := []*big.Int{ref.I(int64(i)), ref.I(int64(i) + 7)}
				r.CT = append(r.CT, ct[:kind])
			}
			checkReading(c, fmt.Sprintf("%d entries", n), fx.LCipher(r), r, ad, 1, at, ns[1].Sk, ns[1].Pk)
		},
	}, &explore.Space{
		Name: "opening-check", Bound: "both kinds of ciphertext x both kinds of commitment x plaintext on the polynomial, off in value, off in mask, at another index x 1..3 coefficients x every receiver, reading with the right or a wrong key",
		Run: func(c *explore.Ctx) { openingCheck(c, e) },
	})
	return sp
}

// cipherEdit changes a reference ciphertext, replacing values in the given
// numbers of ways; returns a description.
func cipherEdit(c *explore.Ctx, r *ref.Cipher, beta *big.Int, popSeed ref.Seed, dealer int, ad []byte, scalarEdits, pointEdits int) string {
	what := ""
	if d := c.Dev("ephemeral key", 2*pointEdits+1); d > 0 {
		var n string
		n, r.Eph = pointEdit((d-1)%pointEdits, r.Eph)
		what += " ephemeral key " + n
		if d > pointEdits { // with the proof's public key following
			what += " with matching public key"
			r.PopPub = ref.PopBase(r.Kind, ad, dealer, r.Eph).Mul(beta)
		}
	}
	if d := c.Dev("proof public key", pointEdits+2); d == pointEdits+1 {
		r.PopPub = ref.PopBase(3-r.Kind, ad, dealer, r.Eph).Mul(beta)
		what += " proof public key of the other kind"
	} else if d > 0 {
		var n string
		n, r.PopPub = pointEdit(d-1, r.PopPub)
		what += " proof public key " + n
	}
	switch d := c.Dev("proof", 2*scalarEdits+5); {
	case d == 0:
	case d <= scalarEdits:
		var n string
		n, r.Pop.C = scalarEdit(d-1, r.Pop.C)
		what += " challenge " + n
	case d <= 2*scalarEdits:
		var n string
		n, r.Pop.R = scalarEdit(d-1-scalarEdits, r.Pop.R)
		what += " response " + n
	case d == 2*scalarEdits+1:
		r.Pop.C, r.Pop.R = r.Pop.R, r.Pop.C
		what += " proof scalars exchanged"
	case d == 2*scalarEdits+2: // a fresh valid proof by the same dealer
		base := ref.PopBase(r.Kind, ad, dealer, r.Eph)
		r.Pop = ref.ProveDlog(popSeed.Derive("fresh"), beta, ref.G, base, ad)
		what += " fresh proof"
	case d == 2*scalarEdits+3: // another ephemeral secret altogether, correctly proved
		b2 := ref.Add(beta, ref.I(5))
		base := ref.PopBase(r.Kind, ad, dealer, ref.MulG(b2))
		r.Eph, r.PopPub, r.Pop = ref.MulG(b2), base.Mul(b2), ref.ProveDlog(popSeed.Derive("fresh"), b2, ref.G, base, ad)
		what += " replaced ephemeral key, proved"
	default: // a proof for the bare data
		base := ref.PopBase(r.Kind, nil, dealer, r.Eph)
		r.PopPub, r.Pop = base.Mul(beta), ref.ProveDlog(popSeed, beta, ref.G, base, nil)
		what += " proof for empty data"
	}
	for i := range r.CT {
		for j := range r.CT[i] {
			if d := c.Dev(fmt.Sprintf("ciphertext %d.%d", i, j), scalarEdits+1); d > 0 {
				var n string
				n, r.CT[i][j] = scalarEdit(d-1, r.CT[i][j])
				what += fmt.Sprintf(" ciphertext %d.%d %s", i, j, n)
			}
		}
	}
	if len(r.CT) < 3 {
		if c.Dev("ciphertexts", 2) == 1 {
			r.CT = append(r.CT, r.CT[0])
			what += " ciphertext added"
		}
		return what
	}
	switch c.Dev("ciphertexts", 6) {
	case 1:
		r.CT[0], r.CT[1] = r.CT[1], r.CT[0]
		what += " ciphertexts 0 and 1 exchanged"
	case 2:
		r.CT[0], r.CT[2] = r.CT[2], r.CT[0]
		what += " ciphertexts 0 and 2 exchanged"
	case 3:
		r.CT = r.CT[:2]
		what += " last ciphertext dropped"
	case 4:
		r.CT = append(r.CT, r.CT[0])
		what += " ciphertext added"
	case 5:
		if r.Kind == ref.Pair {
			r.CT[1][0], r.CT[1][1] = r.CT[1][1], r.CT[1][0]
			what += " pair 1 exchanged"
		} else {
			r.CT[1][0] = r.CT[0][0]
			what += " ciphertext 1 replaced by 0"
		}
	}
	return what
}

func cipherEdits(c *explore.Ctx, e Env, plainOf func(string, int, int) [][]*big.Int) {
	kind := 1 + c.Choose("kind", 2)
	ad, dealer := adAlphabet(e)[6], 1
	size := 3
	if c.Dev("recipients", 2) == 1 {
		size = 1
	}
	ns := fx.Nodes(e.Label("mega"), size)
	_, rs := fx.LSeed(e.Label("ed"))
	plain := plainOf("ed", kind, size)
	r := ref.Encrypt(kind, rs, plain, fx.RPKs(ns), dealer, ad)
	what := cipherEdit(c, &r, ref.Beta(kind, rs), rs.Derive("x"), dealer, ad, scalarEdits, pointEdits)
	ed := adEdits(ad)
	if d := c.Dev("data", len(ed)+1); d > 0 {
		ad = ed[d-1].b
		what += " " + ed[d-1].name
	}
	if d := c.Dev("dealer", 5); d > 0 {
		dealer = []int{1, 0, 2, 257, 1 + 1<<16}[d]
		what += fmt.Sprint(" dealer ", dealer)
	}
	x := fx.LCipher(r)
	c.Key(kind, what)
	checkValidity(c, "edited:"+what, x, r, ad, dealer)
	if r.PopOK(dealer, ad) || c.Replaying() {
		c.Outcome("proof accepted", what)
	}
	for i := 0; i < size; i++ { // the intended reader
		checkReading(c, "edited:"+what, x, r, ad, dealer, i, ns[i].Sk, ns[i].Pk)
	}
	switch c.Dev("reader", 4) {
	case 1: // another index
		for i := 0; i <= size; i++ {
			checkReading(c, "edited, another index:"+what, x, r, ad, dealer, i, ns[(i+1)%size].Sk, ns[(i+1)%size].Pk)
		}
	case 2: // another secret key, right public key
		for i := 0; i < size; i++ {
			checkReading(c, "edited, another secret key:"+what, x, r, ad, dealer, i, ns[(i+1)%size].Sk, ns[i].Pk)
		}
	case 3: // another public key, right secret key
		for i := 0; i < size; i++ {
			checkReading(c, "edited, another public key:"+what, x, r, ad, dealer, i, ns[i].Sk, ns[(i+1)%size].Pk)
		}
	}
}

func openingCheck(c *explore.Ctx, e Env) {
	kind := 1 + c.Choose("ciphertext kind", 2)
	ckind := 1 + c.Choose("commitment kind", 2)
	t := 1 + c.Choose("coefficients", 3)
	mk := func(l string) ref.Poly {
		p := make(ref.Poly, t)
		for i := range p {
			p[i] = randScalar(e, l, i)
		}
		return p
	}
	v, m := mk("oc v"), mk("oc m")
	recv := c.Choose("receiver", 3)
	form := c.Choose("plaintext", 8)
	ns := fx.Nodes(e.Label("mega"), 3)
	var plain [][]*big.Int
	for i := range ns {
		a, b := v.At(i), m.At(i)
		if i == recv {
			switch form {
			case 1:
				a = ref.Add(a, ref.I(1))
			case 2:
				b = ref.Add(b, ref.I(1))
			case 3:
				a, b = v.At(i+1), m.At(i+1)
			case 4:
				a, b = b, a
			case 5:
				a, b = ref.Neg(a), ref.Neg(b)
			case 6:
				b = ref.I(0)
			case 7:
				a, b = ref.I(0), ref.I(0)
			}
		}
		plain = append(plain, []*big.Int{a, b}[:kind])
	}
	wrongKey := c.Bool("wrong key")
	c.Key(kind, ckind, t, recv, form, wrongKey)
	_, rs := fx.LSeed(e.Label("oc"))
	ad := []byte("opening check")
	r := ref.Encrypt(kind, rs, plain, fx.RPKs(ns), 2, ad)
	var mask ref.Poly
	if ckind == ref.Pair {
		mask = m
	}
	ps := ref.Commit(v, mask, t)
	cm := fx.Commitment(ckind == ref.Pair, ps)
	x := fx.LCipher(r)
	for i := range ns {
		sk := ns[i].Sk
		if wrongKey {
			sk = ns[(i+1)%3].Sk
		}
		read := r.DecryptShared(2, i, ad, ns[i].Pk, r.Eph.Mul(sk))
		ok := kind == ckind
		if ok {
			at := ref.CommitAt(ps, i)
			if kind == ref.Single {
				ok = at.Equal(ref.MulG(read[0]))
			} else {
				ok = at.Equal(ref.Pedersen(read[0], read[1]))
			}
		}
		o, err := x.DecryptAndCheck(cm, ad, 2, common.NodeIndex(i), mega.NewMEGaPrivateKey(fx.S(sk)), mega.NewMEGaPublicKey(fx.Pt(ns[i].Pk)))
		what := fmt.Sprintf("ciphertext kind %d, commitment kind %d, %d coefficients, plaintext form %d for receiver %d, receiver %d", kind, ckind, t, form, recv, i)
		c.Check((err == nil) == ok, "acceptance", "%s: %s, want accepted=%v", what, errStr(err), ok)
		c.Check(!ok || fx.OpEq(o, read), "opening", "%s: opening %s, want %s", what, fx.ShowOp(o), hexes(read))
		c.Outcome(ok)
		c.Eval(1)
	}
}
