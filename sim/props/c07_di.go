package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/simrt"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C07", Title: "A data integrity proof covers document and options and its named key made it", Run: runDI,
		Rule:    "one verification of one delivered document with data integrity proofs, judged against the record of what each key signed (content in RDF canonical form and proof options), the clock, and the DID document versions the registry answered with",
		Measure: "cryptosuite x delivery tampering x number of proofs x entry point x expectations x registry and context server faults x verdict",
		Real:    []string{"dataintegrity", "dataintegrity/suite/ecdsa2019", "dataintegrity/suite/eddsa2022", "verifiable (data integrity proofs, embedded proof check)", "crypto-ext verifiers"},
		Stub:    []string{"DID registry", "JSON-LD context server", "remote signer", "delivery channel", "clock"},
	})
}

var diPurposes = []string{"assertionMethod", "assertionMethod", "assertionMethod", "authentication", "capabilityInvocation", "capabilityDelegation"}

// issue signs a document n times.
func (w *diWorld) issue(a *world.Actor, doc world.J, n int) *diSigned {
	r := w.r
	s := &diSigned{by: a.DID, doc: doc}
	viaCred := r.Chance(2, 3, "via-credential")
	sigFail := 0

	if r.Chance(1, 8, "signer-faults") {
		sigFail = 300
	}

	var cred *verifiable.Credential

	if viaCred {
		var err error

		cred, err = verifiable.ParseCredential(world.Enc(doc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(world.NewLoader(r)), verifiable.WithCredDisableValidation())
		if err != nil {
			r.Violate("cannot-issue", "parse", "a valid credential was refused: %v\n%s", err, world.Enc(doc))

			return nil
		}
	}

	for k := 0; k < n; k++ {
		i := r.Choose(len(a.Cur), "key")
		e := a.Cur[i]
		sg := &world.Signer{K: e.Key, R: r, Fail: sigFail}
		su := diSuites(e.Key.Kind)
		suite := su[r.Choose(2, "suite")]
		purpose := diPurposes[r.Choose(len(diPurposes), "purpose")]
		c := &verifiable.DataIntegrityProofContext{SigningKeyID: a.KID(i), ProofPurpose: purpose, CryptoSuite: suite}
		created, expires := time.Now(), time.Time{}

		if r.Chance(1, 2, "created") {
			created = []time.Time{time.Date(2024, 2, 1, 10, 20, 30, 0, time.UTC), time.Date(2024, 2, 1, 10, 20, 30, 5e8, time.UTC),
				time.Date(2024, 2, 1, 10, 20, 30, 0, time.FixedZone("x", 7200))}[r.Choose(3, "stamp")]
			c.Created = &created
		}

		if r.Chance(1, 3, "expires") {
			expires = time.Now().Add([]time.Duration{time.Hour, 20 * time.Second, -time.Minute, 90 * time.Second}[r.Choose(4, "until")])
			c.Expires = &expires
		}

		if r.Chance(1, 3, "challenge") {
			c.Challenge = fmt.Sprintf("ch-%d", r.Choose(3, "ch"))
		}

		if r.Chance(1, 3, "domain") {
			c.Domain = []string{"example.com", "https://rp.example"}[r.Choose(2, "dom")]
		}

		listed, _ := diLists(w.reg.Latest(a.DID), c.SigningKeyID, purpose, e.Key)
		signer := w.diSigner(sg, calm{w.reg})

		var (
			err error
			out []byte
		)

		p := core.Do(func() {
			if viaCred {
				if err = cred.AddDataIntegrityProof(c, signer); err == nil {
					out, err = cred.MarshalJSON()
				}
			} else {
				out, err = signer.AddProof(world.Enc(s.doc), &models.ProofOptions{Purpose: purpose, VerificationMethodID: c.SigningKeyID, ProofType: models.DataIntegrityProof,
					SuiteType: suite, Domain: c.Domain, Challenge: c.Challenge, Created: created, Expires: expires})
			}
		})
		if p != "" {
			r.Violate("panic", core.PanicSite(p), "signing panicked: %s\n%s", p, world.Enc(s.doc))

			return nil
		}

		if err != nil {
			if listed && sg.Failures == 0 {
				r.Violate("cannot-issue", "sign", "a valid document could not be signed with %s (%s, %s): %v\n%s", suite, e.Key.Kind, purpose, err, world.Enc(s.doc))

				return nil
			}

			if cred != nil {
				if now, merr := cred.MarshalJSON(); merr != nil || !world.Same(world.Dec(now), s.doc) {
					r.Violate("cannot-issue", "failed-sign-changed", "a failed signing changed the credential: %v (%v)\nbefore %s\nafter  %s", err, merr, world.Enc(s.doc), now)

					return nil
				}
			}

			continue
		}

		d := world.Dec(out)
		before, after := noProof(s.doc), noProof(d)

		if !world.Same(before, after) {
			r.Violate("cannot-issue", "content", "signing changed the document:\nbefore %s\nafter  %s", world.Enc(before), world.Enc(after))

			return nil
		}

		ps, _ := proofsOf(d)
		if len(ps) != len(s.recs)+1 {
			r.Violate("cannot-issue", "proof-lost", "after adding proof %d the document has %d proofs: %s", len(s.recs)+1, len(ps), out)

			return nil
		}

		rec := w.record(a, i, d, purpose, suite, c.Domain, c.Challenge, created, expires)
		if rec == nil {
			return nil
		}

		if o, ok := diOptOf(ps[len(ps)-1]); !ok || !o.same(rec.opt) {
			r.Violate("cannot-issue", "options", "a proof was asked for with %+v but made with %s", rec.opt, world.Enc(ps[len(ps)-1]))

			return nil
		}

		s.doc = d
		s.recs = append(s.recs, rec)
	}

	if len(s.recs) == 0 {
		return nil
	}

	w.signed = append(w.signed, s)

	return s
}

// forge makes the attacker's own proof over doc, naming vm.
func (w *diWorld) forge(doc world.J, vm string) world.J {
	r := w.r
	i := r.Choose(len(w.evil.Cur), "evil-key")
	e := w.evil.Cur[i]

	var signer = w.diSigner(&world.Signer{K: e.Key, R: r}, calm{w.reg})

	method := e.Key.VM(vm, w.evil.DID, "")
	o := &models.ProofOptions{Purpose: "assertionMethod", VerificationMethodID: vm, VerificationMethod: &method, ProofType: models.DataIntegrityProof,
		SuiteType: diSuites(e.Key.Kind)[0], Created: time.Now()}

	out, err := signer.AddProof(world.Enc(noProof(doc)), o)
	if err != nil {
		return nil
	}

	ps, _ := proofsOf(world.Dec(out))
	if c, err := world.Canon(noProof(doc)); err == nil {
		opt, _ := diOptOf(ps[0])
		w.recs = append(w.recs, &diRec{by: w.evil.DID, key: e.Key, canon: c, opt: opt})
	}

	return ps[0]
}

type diDelivery struct {
	doc   world.J
	raw   []byte
	how   string
	clean bool
	recs  []*diRec
	by    string
}

func (w *diWorld) deliver() *diDelivery {
	r := w.r
	s := w.signed[r.Choose(len(w.signed), "which")]
	d := &diDelivery{doc: world.CloneJ(s.doc), recs: s.recs, by: s.by}
	ps, _ := proofsOf(d.doc)

	setProofs := func(ps []world.J) {
		a := make([]any, len(ps))
		for i := range ps {
			a[i] = ps[i]
		}

		d.doc["proof"] = a
		if len(a) == 1 && r.Chance(1, 2, "single") {
			d.doc["proof"] = a[0]
		}
	}

	kind := r.Choose(20, "delivery")
	if kind > 5 {
		r.FaultFired("message-tampered")
	}

	switch kind {
	case 0, 1, 2:
		d.how, d.clean = "clean", true
	case 3:
		k := r.Choose(len(ps), "keep")
		ps, d.recs = ps[k:k+1], s.recs[k:k+1]
		setProofs(ps)

		d.how, d.clean = "one proof kept", true
	case 4:
		ps = append([]world.J{ps[len(ps)-1]}, ps...)
		setProofs(ps)

		d.how, d.clean = "proofs repeated", true
	case 5:
		d.how, d.clean = "reordered", true
		d.raw = reorder(r, d.doc)
	case 6, 7:
		d.how = "document: " + world.Mutate(r, d.doc, func(p string) bool { return strings.HasPrefix(p, "/proof") })
	case 8:
		d.how = "proof: " + world.Mutate(r, ps[r.Choose(len(ps), "p")], nil)
		setProofs(ps)
	case 9, 10, 11:
		p := ps[r.Choose(len(ps), "p")]

		set := func(k string, v any) {
			d.how = "proof option " + k + " changed"
			if p[k] == nil {
				d.how = "proof option " + k + " added"
			}

			p[k] = v
			if v == nil {
				d.how = "proof option " + k + " removed"
				delete(p, k)
			}
		}

		switch r.Choose(9, "opt") {
		case 0:
			set("created", []any{"2024-02-01T10:20:31Z", "2025-01-01T00:00:00Z", "", nil}[r.Choose(4, "v")])
		case 1:
			set("expires", []any{"2034-02-01T10:20:31Z", "2025-01-01T00:00:00Z", nil, "", "never"}[r.Choose(5, "v")])
		case 2:
			set("proofPurpose", []any{"authentication", "capabilityDelegation", "", nil, "assertionMethod", "keyAgreement"}[r.Choose(6, "v")])
		case 3:
			set("challenge", []any{"ch-0", "ch-1", "ch-9", nil, 1}[r.Choose(5, "v")])
		case 4:
			set("domain", []any{"example.com", "evil.example", nil, 1}[r.Choose(4, "v")])
		case 5:
			set("verificationMethod", []any{w.evil.KID(0), w.issuers[0].KID(0), w.issuers[1].KID(0), w.evil.DID + "#" + w.issuers[0].Cur[0].Fragment, w.issuers[0].DID, nil}[r.Choose(6, "v")])
		case 6:
			set("cryptosuite", []any{"eddsa-rdfc-2022", "eddsa-2022", "ecdsa-rdfc-2019", "ecdsa-2019", "bbs-2023", nil, ""}[r.Choose(7, "v")])
		case 7:
			set("type", []any{"Ed25519Signature2020", "JsonWebSignature2020", nil, "dataintegrityproof"}[r.Choose(4, "v")])
		case 8: // a member under a name that only looks the same
			k := world.Keys(p)[r.Choose(len(p), "member")]
			v := p[k]
			at := r.Choose(len(k), "letter")
			n := k[:at] + strings.ToUpper(k[at:at+1]) + k[at+1:]

			if n == k {
				n = strings.ToLower(k)
			}

			if n == k {
				n = strings.ToUpper(k)
			}

			p[n] = v
			delete(p, k)

			if r.Chance(1, 3, "decoy") {
				p[k] = []any{"evil.example", "2034-02-01T10:20:31Z", "authentication"}[r.Choose(3, "decoy")]
			}

			d.how = "proof option " + k + " renamed " + n
		}

		setProofs(ps)
	case 12:
		p := ps[r.Choose(len(ps), "p")]
		v := str(p["proofValue"])

		switch r.Choose(6, "sig") {
		case 0:
			p["proofValue"] = world.GarbleText(r, v)
		case 1:
			p["proofValue"] = v[:r.Choose(len(v)+1, "cut")]
		case 2:
			p["proofValue"] = ""
		case 3:
			p["proofValue"] = "z"
		case 4:
			p["proofValue"] = "z" + strings.Repeat("1", 64)
		case 5:
			delete(p, "proofValue")
		}

		d.how = "signature changed"
		setProofs(ps)
	case 13:
		o := w.signed[r.Choose(len(w.signed), "other")]
		d.doc["proof"] = world.Clone(o.doc["proof"])
		d.how = "proof of another document"
	case 14: // one good proof and a foreign one
		o := w.signed[r.Choose(len(w.signed), "other")]
		op, _ := proofsOf(world.CloneJ(o.doc))
		x := op[0]

		switch r.Choose(4, "foreign") {
		case 0:
			if f := w.forge(d.doc, []string{w.evil.KID(0), w.issuers[0].KID(0), w.issuers[1].KID(0)}[r.Choose(3, "vm")]); f != nil {
				x = f
			}
		case 1: // the same signature under another's name
			x = world.CloneJ(ps[0])
			x["verificationMethod"] = []string{w.evil.KID(0), w.issuers[0].KID(0), w.issuers[1].KID(0)}[r.Choose(3, "vm")]
		case 2:
			x = world.CloneJ(ps[0])
			x["created"] = "2024-01-01T00:00:00Z"
		}

		if r.Chance(1, 2, "front") {
			ps = append([]world.J{x}, ps...)
		} else {
			ps = append(ps, x)
		}

		setProofs(ps)

		d.how = "foreign proof beside a good one"
	case 15:
		vm := []string{w.evil.KID(0), w.issuers[0].KID(0), w.issuers[1].KID(0), w.evil.DID + "#" + w.issuers[0].Cur[0].Fragment, s.recs[0].opt.vm}[r.Choose(5, "vm")]
		if r.Chance(1, 2, "change") {
			d.how = world.Mutate(r, d.doc, func(p string) bool { return strings.HasPrefix(p, "/proof") }) + ", "
		}

		if f := w.forge(d.doc, vm); f != nil {
			setProofs([]world.J{f})
		}

		d.how += "re-signed by the attacker"
	case 16:
		d.doc["issuer"] = []any{w.evil.DID, w.issuers[0].DID, world.J{"id": w.evil.DID}}[r.Choose(3, "to")]
		if f := w.forge(d.doc, w.evil.KID(0)); f != nil && r.Chance(1, 2, "re-sign") {
			setProofs([]world.J{f})
		}

		d.how = "issuer changed"
	case 17:
		d.doc["proof"] = []any{nil, []any{}, world.J{}, "x", []any{nil}, []any{world.J{}}, []any{[]any{ps[0]}}, []any{[]any{}}, world.J{"type": "DataIntegrityProof"},
			[]any{ps[0], nil}, []any{ps[0], world.J{"type": "DataIntegrityProof"}}, []any{ps[0], world.J{"type": "Ed25519Signature2020"}}}[r.Choose(12, "bare")]
		if r.Chance(1, 8, "drop") {
			delete(d.doc, "proof")
		}

		d.how = "no proof"
	case 18:
		c, _ := d.doc["@context"].([]any)

		switch r.Choose(5, "ctx") {
		case 0:
			d.doc["@context"] = c[:1]
		case 1:
			d.doc["@context"] = append(append([]any{}, c...), world.J{"name": nil, "serial": nil, "challenge": nil, "created": nil, "expires": nil})
		case 2:
			d.doc["@context"] = append(append([]any{}, c...), world.J{"name": "https://sim.example/vocab#serial", "serial": "https://sim.example/vocab#name"})
		case 3:
			d.doc["@context"] = append(append([]any{}, c...), world.J{"@vocab": nil})
		case 4:
			d.doc["@context"] = append([]any{c[0]}, world.J{"@vocab": "https://other.example/#"})
		}

		d.how = "context changed"
	case 19:
		d.raw = world.Garble(r, world.Enc(d.doc))
		d.how = "garbled"
	}

	if d.raw == nil {
		d.raw = world.Enc(d.doc)
	}

	d.doc = world.Dec(d.raw)

	return d
}

func runDI(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newDIWorld(r)

	if r.Chance(1, 2, "registry-faults") {
		w.reg.Fail, w.reg.Stale, w.reg.Slow = 60, 200, 60
	}

	if r.Chance(1, 3, "loader-faults") {
		w.loader.Fail, w.loader.Slow = 20, 20
	}

	issue := func(a *world.Actor) {
		w.seq++
		vc := world.GenVC(r, world.VCSpec{Issuer: a.DID, Subject: "did:sim:holder", V2: r.Chance(1, 2, "v2"), Seq: w.seq})

		if r.Chance(1, 2, "di-context") {
			vc["@context"] = append(vc["@context"].([]any), DIv2)
		}

		w.issue(a, vc, r.N(1, 3, "proofs"))
	}

	issue(w.issuers[0])
	issue(w.issuers[1])

	if r.Failed() || len(w.signed) == 0 {
		return
	}

	tasks := []func(){func() {
		for op := 0; op < 3 && !r.Failed(); op++ {
			a := w.issuers[r.Choose(len(w.issuers), "who")]

			if r.Chance(1, 2, "rotate") {
				a.Rotate()

				for i := range a.Cur {
					if a.Cur[i].Type != "" {
						a.Cur[i].Type = diType(a.Cur[i].Key.Kind)
					}
				}
			} else {
				issue(a)
			}

			r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
		}
	}}

	for i, n := 0, r.N(1, 2, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			skew := time.Duration(0)

			if r.Fault("clock-skew", 1, 5) {
				skew = []time.Duration{-time.Hour, 30 * time.Second, -30 * time.Second, 2 * time.Hour}[r.Choose(4, "skew")]
			}

			simrt.SetSkew(skew)

			opts := &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof}

			for op := 0; op < 5 && !r.Failed(); op++ {
				w.verifyDI(opts, skew)
				r.Sleep(time.Duration(r.Choose(40, "pause")) * time.Second)
			}
		})
	}

	r.Parallel("actor", tasks...)
}

func (w *diWorld) verifyDI(reused *models.ProofOptions, skew time.Duration) {
	r := w.r
	d := w.deliver()
	want := diWant{purpose: "assertionMethod"}
	asked := ""

	switch r.Choose(6, "expect") {
	case 0, 1:
	case 2, 3:
		o := d.recs[0].opt
		asked, want = o.purpose, diWant{purpose: o.purpose, domain: o.domain, challenge: o.challenge}
	case 4:
		want.challenge = []string{"", "ch-0", "ch-1"}[r.Choose(3, "want-ch")]
		want.domain = []string{"", "example.com"}[r.Choose(2, "want-dom")]
		want.purpose = diPurposes[r.Choose(len(diPurposes), "want-purpose")]
		asked = want.purpose
	case 5:
		o := d.recs[0].opt
		asked, want = o.purpose, diWant{purpose: o.purpose, domain: o.domain, challenge: near(r, o.challenge)}

		if r.Chance(1, 2, "near-domain") {
			want.domain, want.challenge = near(r, o.domain), o.challenge
		}
	}

	mode := r.Choose(5, "mode")
	from, ctxFail := len(w.reg.Log), w.loader.Failed

	var (
		err  error
		cred *verifiable.Credential
	)

	t0 := time.Now().Add(skew)

	p := core.Do(func() {
		switch mode {
		case 0, 1, 2:
			opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithDisabledRelatedResourceCheck(), verifiable.WithDataIntegrityVerifier(w.verifier),
				verifiable.WithExpectedDataIntegrityFields(asked, want.domain, want.challenge)}

			if mode == 2 {
				cred, err = verifiable.ParseCredential(d.raw, verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
				if err == nil {
					err = cred.CheckProof(opts...)
				}
			} else {
				cred, err = verifiable.ParseCredential(d.raw, append(opts, verifiable.WithCredDisableValidation())...)
			}

			if err == nil && cred.Contents().Issuer != nil {
				want.issuer = cred.Contents().Issuer.ID
			}
		case 3:
			err = w.verifier.VerifyProof(d.raw, &models.ProofOptions{Purpose: want.purpose, ProofType: models.DataIntegrityProof, Domain: want.domain, Challenge: want.challenge})
		case 4: // options kept from one verification to the next
			want = diWant{purpose: reused.Purpose}
			err = w.verifier.VerifyProof(d.raw, reused)
		}
	})
	t1 := time.Now().Add(skew)

	if p != "" {
		r.Violate("panic", core.PanicSite(p), "verification panicked: %s\ninput (%s): %s", p, d.how, d.raw)

		return
	}

	res := w.reg.Window(from)
	kind := d.how

	if i := strings.IndexAny(kind, ":,"); i > 0 {
		kind = kind[:i]
	}

	r.Eval("%s %s n=%d mode=%d want=%v/%v reg=%d ctx=%v accepted=%v", d.recs[0].opt.suite, kind, len(d.recs), mode, want.domain != "", want.challenge != "", len(res), w.loader.Failed > ctxFail, err == nil)

	if err != nil {
		r.Logf("verify %s mode %d: refused: %v", d.how, mode, err)

		if mode < 3 {
			want.issuer = d.by
		}

		if d.clean && w.loader.Failed == ctxFail && diMustAccept(d.recs, want, res, t0, t1) {
			r.Violate("false-reject", "genuine", "a genuine document, its keys listed by the registry, was refused (mode %d, expecting %+v): %v\ninput (%s): %s", mode, want, err, d.how, d.raw)
		}

		return
	}

	r.Logf("verify %s mode %d: accepted", d.how, mode)

	if d.doc == nil {
		r.Violate("accepted-unauthentic", "not JSON", "bytes that are not a JSON object were accepted\ninput (%s): %q", d.how, d.raw)

		return
	}

	if key, why := w.authentic(d.doc, want, res, t0, t1); why != "" {
		r.Violate("accepted-unauthentic", key, "a document was accepted (mode %d, expecting %+v) but %s\ninput (%s): %s", mode, want, why, d.how, d.raw)
	}
}
