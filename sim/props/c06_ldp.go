package props

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C06", Title: "A linked data proof covers the whole document and its issuer's own key made it", Run: runLDP,
		Rule:    "one verification of one delivered document with linked data proofs, judged against the record of what each issuer signed (compared in RDF canonical form, computed independently) and the DID document versions the registry answered with",
		Measure: "proof type x delivery tampering x number of proofs x registry and context server faults x verdict",
		Real:    []string{"verifiable (JSON-LD credentials)", "verifiable/lddocument", "proof/checker", "proof/ldproofs", "proof/creator", "crypto-ext verifiers", "vermethod"},
		Stub:    []string{"DID registry", "JSON-LD context server", "remote signer", "delivery channel", "clock"},
	})
}

const evilMark = "EVIL-MARK"

type ldDelivery struct {
	doc   world.J
	raw   []byte
	how   string
	clean bool // must be accepted
	recs  []*ldRec
	by    string
	mark  bool
	ext   bool // clean for those who hold the contexts left out
}

func flipSig(r *core.Run, p world.J) string {
	k := "proofValue"
	s := str(p[k])

	if s == "" {
		k = "jws"
		s = str(p[k])
	}

	if s == "" {
		return ""
	}

	pre, sig := "", s
	if k == "jws" {
		i := strings.LastIndex(s, ".")
		pre, sig = s[:i+1], s[i+1:]
	}

	switch r.Choose(6, "sig") {
	case 0:
		sig = world.GarbleText(r, sig)
	case 1:
		sig = sig[:r.Choose(len(sig)+1, "cut")]
	case 2:
		sig = ""
	case 3:
		b := make([]byte, 64)
		sig = base64.RawURLEncoding.EncodeToString(b)
	case 4:
		sig += "AAAA"
	case 5:
		if k == "jws" {
			h := []string{`{"alg":"none","b64":false,"crit":["b64"]}`, `{"alg":"HS256","b64":false,"crit":["b64"]}`, `{"alg":"EdDSA"}`, `{}`, ``}[r.Choose(5, "jws-header")]
			p[k] = base64.RawURLEncoding.EncodeToString([]byte(h)) + ".." + sig

			return "jws header changed"
		}

		sig = strings.ToLower(sig)
	}

	p[k] = pre + sig

	return "signature changed"
}

// deliver picks what arrives at a verifier.
func (w *ldWorld) deliver() *ldDelivery {
	r := w.r
	s := w.signed[r.Choose(len(w.signed), "which")]
	d := &ldDelivery{doc: world.CloneJ(s.doc), recs: s.recs, by: s.by}
	ps, _ := proofsOf(d.doc)

	setProofs := func(ps []world.J) {
		a := make([]any, len(ps))
		for i := range ps {
			a[i] = ps[i]
		}

		d.doc["proof"] = a
		if len(a) == 1 && r.Chance(1, 2, "single") {
			d.doc["proof"] = a[0]
		}
	}

	kind := r.Choose(21, "delivery")
	if kind > 4 && kind < 20 {
		r.FaultFired("message-tampered")
	}

	switch kind {
	case 0, 1:
		d.how, d.clean = "clean", true
		setProofs(ps)
	case 2: // one of the proofs
		k := r.Choose(len(ps), "keep")
		ps, d.recs = ps[k:k+1], s.recs[k:k+1]
		setProofs(ps)

		d.how, d.clean = "one proof kept", true
	case 3: // repeated and reordered proofs
		ps = append([]world.J{ps[len(ps)-1]}, ps...)
		setProofs(ps)

		d.how, d.clean = "proofs repeated", true
	case 4: // the members in another order
		d.how, d.clean = "reordered", true
		d.raw = reorder(r, d.doc)
	case 5, 6, 7:
		d.how = "document: " + world.Mutate(r, d.doc, func(p string) bool { return strings.HasPrefix(p, "/proof") })
	case 8:
		d.how = "proof: " + world.Mutate(r, ps[r.Choose(len(ps), "p")], nil)
		setProofs(ps)
	case 9:
		p := ps[r.Choose(len(ps), "p")]

		switch r.Choose(9, "opt") {
		case 0:
			p["created"] = []any{"2024-02-01T10:20:31Z", "2025-01-01T00:00:00Z", "", nil}[r.Choose(4, "v")]
		case 1:
			p["proofPurpose"] = []any{"authentication", "capabilityDelegation", "", nil, "assertionMethod"}[r.Choose(5, "v")]
		case 2:
			p["challenge"] = []any{"ch-0", "ch-1", "ch-9", nil, 1}[r.Choose(5, "v")]
		case 3:
			p["domain"] = []any{"example.com", "evil.example", nil, 1}[r.Choose(4, "v")]
		case 4:
			p["verificationMethod"] = w.evil.KID(0)
		case 5:
			x := w.issuers[r.Choose(2, "w")]
			p["verificationMethod"] = x.KID(r.Choose(len(x.Cur), "kid"))
		case 6:
			p["type"] = []string{"Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020", "EcdsaSecp256k1Signature2019", "BbsBlsSignature2020", "BbsBlsSignatureProof2020", "DataIntegrityProof"}[r.Choose(7, "v")]
		case 7:
			p["creator"] = p["verificationMethod"]
			delete(p, "verificationMethod")
		case 8:
			p["creator"] = w.evil.KID(0)
		}

		setProofs(ps)

		d.how = "proof option changed"
	case 10:
		d.how = flipSig(r, ps[r.Choose(len(ps), "p")])
		setProofs(ps)
	case 11:
		o := w.signed[r.Choose(len(w.signed), "other")]
		d.doc["proof"] = world.Clone(o.doc["proof"])
		d.how = "proof of another document"
	case 12: // one good proof and a foreign one
		o := w.signed[r.Choose(len(w.signed), "other")]
		op, _ := proofsOf(world.CloneJ(o.doc))
		x := op[0]

		if r.Chance(1, 2, "forged") {
			if f := w.forgeProof(d.doc, []string{w.evil.KID(0), w.issuers[0].KID(0)}[r.Choose(2, "vm")]); f != nil {
				x = f
			}
		}

		if r.Chance(1, 2, "front") {
			ps = append([]world.J{x}, ps...)
		} else {
			ps = append(ps, x)
		}

		setProofs(ps)

		d.how = "foreign proof beside a good one"
	case 13: // the attacker's own proof on the victim's document
		vm := []string{w.evil.KID(0), w.issuers[0].KID(0), w.issuers[1].KID(0), w.evil.DID + "#" + w.issuers[0].Cur[0].Fragment, s.recs[0].vm}[r.Choose(5, "vm")]
		if r.Chance(1, 2, "change") {
			d.how = world.Mutate(r, d.doc, func(p string) bool { return strings.HasPrefix(p, "/proof") }) + ", "
		}

		if f := w.forgeProof(d.doc, vm); f != nil {
			setProofs([]world.J{f})
		}

		d.how += "re-signed by the attacker"
	case 14: // the attacker takes the document over
		d.doc["issuer"] = w.evil.DID
		if f := w.forgeProof(d.doc, w.evil.KID(0)); f != nil {
			setProofs([]world.J{f})
		}

		d.how = "taken over by the attacker"
	case 15:
		d.doc["proof"] = []any{nil, []any{}, world.J{}, "x", []any{nil}, []any{world.J{}}, []any{[]any{ps[0]}}, world.J{"type": "DataIntegrityProof"},
			[]any{world.J{"type": "DataIntegrityProof"}, ps[0]}}[r.Choose(9, "bare")]
		if r.Chance(1, 6, "drop") {
			delete(d.doc, "proof")
		}

		d.how = "no proof"
	case 16: // terms the signature does not cover
		d.mark = true
		t := d.doc

		switch r.Choose(3, "where") {
		case 0:
			if x, ok := d.doc["credentialSubject"].(map[string]any); ok {
				t = x
			}
		case 1:
			if x, ok := d.doc["issuer"].(map[string]any); ok {
				t = x
			}
		}

		switch r.Choose(4, "mark") {
		case 0:
			t["unknownTerm"] = evilMark
		case 1:
			t["unknown term"] = world.J{"deep": evilMark}
		case 2:
			t["unknownTerm"] = []any{world.J{"id": "urn:x", "name": evilMark}}
		case 3:
			t["Name"] = evilMark
		}

		d.how = "uncovered term added"
	case 17: // duplicate members
		b := world.Enc(d.doc)
		k := []string{"issuer", "credentialSubject", "proof", "id", "type"}[r.Choose(5, "dup")]
		v := world.Enc(map[string]any{"issuer": w.evil.DID, "credentialSubject": world.J{"id": "did:sim:evil", "name": evilMark}, "proof": world.J{}, "id": "urn:evil", "type": []any{"VerifiableCredential", "Evil"}}[k])
		m := []byte(fmt.Sprintf("%q:%s", k, v))

		if r.Chance(1, 2, "front") {
			d.raw = append(append([]byte("{"), append(m, ',')...), b[1:]...)
		} else {
			d.raw = append(append(bytes.Clone(b[:len(b)-1]), ','), append(m, '}')...)
		}

		d.doc = world.Dec(d.raw)
		d.how = "duplicate member " + k
	case 18: // contexts changed
		c, _ := d.doc["@context"].([]any)

		switch r.Choose(5, "ctx") {
		case 0:
			d.doc["@context"] = c[:1]
		case 1:
			d.doc["@context"] = append(append([]any{}, c...), world.J{"name": nil, "serial": nil, "claim0": nil})
		case 2:
			d.doc["@context"] = append(append([]any{}, c...), world.J{"name": "https://sim.example/vocab#serial", "serial": "https://sim.example/vocab#name"})
		case 3:
			d.doc["@context"] = append(append([]any{}, c...), world.J{"@vocab": nil})
		case 4:
			d.doc["@context"] = append([]any{c[0]}, world.J{"@vocab": "https://other.example/#"})
		}

		d.how = "context changed"
	case 19: // damaged bytes
		d.raw = world.Garble(r, world.Enc(d.doc))
		d.doc = world.Dec(d.raw)
		d.how = "garbled"
	case 20: // the verifier is known to hold the context of the issuer's own terms
		c, _ := d.doc["@context"].([]any)
		d.doc["@context"] = append([]any{}, c[:1]...)
		d.how, d.ext = "contexts left to the verifier", true

		if r.Chance(1, 3, "altered") {
			r.FaultFired("message-tampered")

			d.how, d.ext = d.how+", "+world.Mutate(r, d.doc, func(p string) bool { return strings.HasPrefix(p, "/proof") }), false
		}

		setProofs(ps)
	}

	if d.raw == nil {
		d.raw = world.Enc(d.doc)
	}

	d.doc = world.Dec(d.raw)

	if !d.mark {
		d.mark = d.doc != nil && bytes.Contains(d.raw, []byte(evilMark))
	}

	return d
}

// reorder writes doc with its members in another order.
func reorder(r *core.Run, v any) []byte {
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}

		sortStrings(ks)

		at := 0
		if len(ks) > 0 {
			at = r.Choose(len(ks), "rot")
		}

		var b bytes.Buffer

		b.WriteString("{ ")

		for i := range ks {
			k := ks[(i+at)%len(ks)]
			if i > 0 {
				b.WriteString(" ,\n")
			}

			b.Write(world.Enc(k))
			b.WriteString(" : ")
			b.Write(reorder(r, x[k]))
		}

		b.WriteString("}")

		return b.Bytes()
	case []any:
		var b bytes.Buffer

		b.WriteString("[")

		for i, e := range x {
			if i > 0 {
				b.WriteString(" , ")
			}

			b.Write(reorder(r, e))
		}

		b.WriteString("]")

		return b.Bytes()
	}

	return world.Enc(v)
}

func runLDP(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newLDWorld(r)

	if r.Chance(1, 2, "registry-faults") {
		w.reg.Fail, w.reg.Stale, w.reg.Slow = 60, 200, 60
	}

	if r.Chance(1, 3, "loader-faults") {
		w.loader.Fail, w.loader.Slow = 20, 20
	}

	issue := func(a *world.Actor) {
		w.seq++
		w.sign(a, world.GenVC(r, world.VCSpec{Issuer: a.DID, Subject: "did:sim:holder", V2: r.Chance(1, 2, "v2"), Seq: w.seq}), r.N(1, 2, "proofs"))
	}

	issue(w.issuers[0])

	if r.Failed() {
		return
	}

	tasks := []func(){func() {
		for op := 0; op < 3 && !r.Failed(); op++ {
			a := w.issuers[r.Choose(len(w.issuers), "who")]

			if r.Chance(1, 2, "rotate") {
				a.Rotate()

				for i := range a.Cur { // keep the method type consistent with the key
					if a.Cur[i].Key.Kind != world.Ed {
						a.Cur[i].Type = ""
					}
				}
			} else {
				issue(a)
			}

			r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
		}
	}}

	for i, n := 0, r.N(1, 2, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			for op := 0; op < 4 && !r.Failed(); op++ {
				w.verifyOne()
				r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
			}
		})
	}

	r.Parallel("actor", tasks...)
}

func (w *ldWorld) verifyOne() {
	r := w.r
	d := w.deliver()
	from, ctxFail := len(w.reg.Log), w.loader.Failed
	mode := r.Choose(5, "mode")
	validate := r.Chance(1, 6, "validate")
	own := mode < 3 && r.Chance(1, 8, "own-contexts") || strings.HasPrefix(d.how, "contexts left") && r.Chance(3, 4, "own-contexts") && mode < 3

	if own {
		d.clean = d.ext // json-gold refuses a context named twice
	}
	issuer := ""

	var err error

	var cred *verifiable.Credential

	p := core.Do(func() {
		switch mode {
		case 0, 1, 2:
			opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithDisabledRelatedResourceCheck()}
			if !validate {
				opts = append(opts, verifiable.WithCredDisableValidation())
			} else if r.Chance(1, 3, "types") {
				opts = append(opts, verifiable.WithEnabledJSONLDTypesCheck())
			}

			if validate && r.Chance(1, 3, "explain") {
				opts = append(opts, verifiable.WithJSONLDIncludeDetailedStructureDiffOnError())
			}

			ctx := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.checker), verifiable.WithJSONLDDocumentLoader(w.loader)}
			if own {
				opts = append(opts, verifiable.WithExternalJSONLDContext(world.Sim))
				ctx = append(ctx, verifiable.WithExternalJSONLDContext(world.Sim))
			}

			if d.clean && r.Chance(1, 8, "drop-invalid") { // a genuine document holds nothing to drop
				opts = append(opts, verifiable.WithJSONLDOnlyValidRDF())
				ctx = append(ctx, verifiable.WithJSONLDOnlyValidRDF())
			}

			switch mode {
			case 0:
				opts = append(opts, verifiable.WithProofChecker(w.checker))
			case 1:
				opts = append(opts, verifiable.WithLDProofChecker(w.checker))
			case 2:
				opts = append(opts, verifiable.WithDisabledProofCheck())
			}

			cred, err = verifiable.ParseCredential(d.raw, opts...)

			if err == nil && mode == 2 {
				err = cred.CheckProof(ctx...)
			}

			if err == nil && cred.Contents().Issuer != nil {
				issuer = cred.Contents().Issuer.ID
			}
		default:
			validate = false
			issuer = d.by

			if mode == 3 {
				err = lddocument.NewDocumentVerifier(w.checker).Verify(d.raw, &issuer, processor.WithDocumentLoader(w.loader), processor.WithValidateRDF())
			} else {
				// without an expected issuer the method's own DID answers for the proof
				err = lddocument.NewDocumentVerifier(w.checker).Verify(d.raw, nil, processor.WithDocumentLoader(w.loader), processor.WithValidateRDF())
			}
		}
	})
	if p != "" {
		r.Violate("panic", core.PanicSite(p), "verification panicked: %s\ninput (%s): %s", p, d.how, d.raw)

		return
	}

	res := w.reg.Window(from)
	kind := d.how

	if i := strings.IndexAny(kind, ":,"); i > 0 {
		kind = kind[:i]
	}

	if err != nil {
		r.Logf("verify %s mode %d: refused: %v", d.how, mode, err)
		r.Eval("%s %s n=%d mode=%d validate=%v refused reg=%d ctx=%v", d.recs[0].proof["type"], kind, len(d.recs), mode, validate, len(res), w.loader.Failed > ctxFail)

		if d.clean && w.loader.Failed == ctxFail {
			if len(res) == 0 {
				r.Violate("false-reject", "no lookup", "a genuine document was refused before the registry was asked: %v\ninput (%s): %s", err, d.how, d.raw)
			} else if shouldAccept(d.recs, d.by, res) {
				r.Violate("false-reject", "genuine", "a genuine document, its keys listed by the registry, was refused: %v\ninput (%s): %s", err, d.how, d.raw)
			}
		}

		return
	}

	r.Logf("verify %s mode %d: accepted", d.how, mode)
	r.Eval("%s %s n=%d mode=%d validate=%v accepted", d.recs[0].proof["type"], kind, len(d.recs), mode, validate)

	if d.doc == nil {
		r.Violate("accepted-unauthentic", "not JSON", "bytes that are not a JSON object were accepted\ninput (%s): %q", d.how, d.raw)

		return
	}

	if mode == 4 {
		// each proof must be genuine for the DID of its own method
		ps, _ := proofsOf(d.doc)
		for _, p := range ps {
			one := world.CloneJ(d.doc)
			one["proof"] = p
			vm := str(p["verificationMethod"])

			if vm == "" {
				vm = str(p["creator"])
			}

			if key, why := w.authentic(one, strings.SplitN(vm, "#", 2)[0], res); why != "" {
				r.Violate("accepted-unauthentic", key, "a document was accepted but %s\ninput (%s): %s", why, d.how, d.raw)
			}
		}

		if len(ps) == 0 {
			r.Violate("accepted-unauthentic", "no-proof", "a document without a proof was accepted\ninput (%s): %s", d.how, d.raw)
		}

		return
	}

	read := d.doc
	if own { // what the document says to one who adds his own contexts
		read = world.CloneJ(d.doc)

		switch c := read["@context"].(type) {
		case []any:
			read["@context"] = append(append([]any{}, c...), world.Sim)
		case nil:
			read["@context"] = []any{world.Sim}
		default:
			read["@context"] = []any{c, world.Sim}
		}
	}

	if key, why := w.authentic(read, issuer, res); why != "" {
		r.Violate("accepted-unauthentic", key, "a document was accepted but %s\ninput (%s): %s", why, d.how, d.raw)

		return
	}

	if cred == nil {
		return
	}

	if d.mark && validate && bytes.Contains(world.Enc(cred.ToRawJSON()), []byte(evilMark)) {
		r.Violate("accepted-unauthentic", "uncovered-term", "a credential was accepted, with validation, that carries a term its signature does not cover\ninput (%s): %s", d.how, d.raw)
	}

	list := func(doc world.J) world.J {
		c := world.CloneJ(asJSON(doc))
		if ps, ok := proofsOf(c); ok { // a set of one and a single proof are the same
			c["proof"] = ps
		}

		return c
	}

	if !world.Same(list(cred.ToRawJSON()), list(d.doc)) {
		r.Violate("content", "differs", "the accepted credential differs from what was delivered:\ngot  %s\nwant %s", world.Enc(cred.ToRawJSON()), d.raw)
	}
}
