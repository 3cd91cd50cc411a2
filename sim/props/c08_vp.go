package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C08", Title: "A presentation is accepted only with a proof over its content by the key it names", Run: runVP,
		Rule:    "one parse of one delivered presentation, judged against the record of what each holder and issuer signed and the DID document versions the registry answered with",
		Measure: "form (JWT, COSE, linked data proof, data integrity proof) x envelope x delivery tampering x embedded credentials x registry fault x verdict",
		Real:    []string{"verifiable (presentations of every form, embedded credentials)", "jwt", "cwt", "dataintegrity", "verifiable/lddocument", "proof/checker", "proof/creator", "vermethod"},
		Stub:    []string{"DID registry", "JSON-LD context server", "remote signer", "delivery channel", "clock"},
	})
}

// tokRec is one act of signing a JWT or COSE message.
type tokRec struct {
	by      string
	kid     string
	key     *world.Key
	protect []byte // header
	payload []byte
	attack  bool
}

type poolVC struct {
	raw  any    // string or object
	tok  string // of a token
	doc  world.J
	rec  *tokRec // of a token
	good bool
	how  string
	self string // DID whose embedded proofs it carries
}

// embed is the form a parsed credential takes in a presentation.
func (p *poolVC) embed() any {
	if p.how == "unsecured jwt" {
		return p.doc
	}

	return p.raw
}

type vpSigned struct {
	form  string
	by    string
	doc   world.J // what the presentation says
	creds []*poolVC
	raw   []byte // as the holder sends it
	tok   *tokRec
	ld    []*ldRec
	di    []*diRec
	min   bool
}

type vpWorld struct {
	r       *core.Run
	reg     *world.Registry
	loader  *world.Loader
	holders []*world.Actor
	issuers []*world.Actor
	evil    *world.Actor
	ld      *ldWorld
	di      *diWorld
	toks    []*tokRec
	pool    []*poolVC
	signed  []*vpSigned
	checker verifiable.CombinedProofChecker
	seq     int
}

func newVPWorld(r *core.Run) *vpWorld {
	w := &vpWorld{r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r)}

	actor := func(id string) *world.Actor {
		var ks []world.Kind
		for i, n := 0, r.N(1, 2, "keys"); i < n; i++ {
			ks = append(ks, []world.Kind{world.Ed, world.P256, world.P384}[r.Choose(3, "kind")])
		}

		return world.NewActor(r, w.reg, id, ks...)
	}

	for i := 0; i < 2; i++ {
		w.holders = append(w.holders, actor(fmt.Sprintf("did:sim:holder%d", i)))
	}

	w.issuers = []*world.Actor{actor("did:sim:issuer0")}
	w.evil = actor(evilDID(r, w.holders[0].DID))
	w.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(w.reg))
	w.ld = &ldWorld{sloppy: true, r: r, reg: w.reg, loader: w.loader, issuers: append([]*world.Actor{}, w.holders...), evil: w.evil, checker: w.checker}
	w.di = &diWorld{r: r, reg: w.reg, loader: w.loader, issuers: w.ld.issuers, evil: w.evil, verifier: newDIVerifier(w.reg, w.loader)}

	return w
}

func coseAlg(k world.Kind) cose.Algorithm {
	switch k {
	case world.P256:
		return cose.AlgorithmES256
	case world.P384:
		return cose.AlgorithmES384
	case world.P521:
		return cose.AlgorithmES512
	case world.RSAPS:
		return cose.AlgorithmPS256
	}

	return cose.AlgorithmEdDSA
}

// coseParts reads a COSE_Sign1 message.
func coseParts(b []byte) (m *cose.Sign1Message, protect []byte) {
	m = &cose.Sign1Message{}
	if cbor.Unmarshal(b, m) != nil {
		return nil, nil
	}

	p, err := m.Headers.MarshalProtected()
	if err != nil {
		return nil, nil
	}

	return m, p
}

// signCOSE signs without the code under test.
func signCOSE(k *world.Key, h cose.ProtectedHeader, payload []byte) []byte {
	m := cose.NewSign1Message()
	m.Headers.Protected = h
	m.Payload = payload

	p, err := m.Headers.MarshalProtected()
	if err != nil {
		return nil
	}

	sig, err := cbor.Marshal([]any{"Signature1", cbor.RawMessage(p), []byte{}, payload})
	if err != nil {
		panic(err)
	}

	if m.Signature, err = k.Sign(sig); err != nil {
		panic(err)
	}

	out, err := m.MarshalCBOR()
	if err != nil {
		panic(err)
	}

	return out
}

// jsonOf turns decoded CBOR into JSON values.
func jsonOf(v any) any {
	switch x := v.(type) {
	case map[any]any:
		o := world.J{}
		for k, e := range x {
			o[fmt.Sprint(k)] = jsonOf(e)
		}

		return o
	case map[string]any:
		o := world.J{}
		for k, e := range x {
			o[k] = jsonOf(e)
		}

		return o
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = jsonOf(x[i])
		}

		return o
	case uint64:
		return float64(x)
	case int64:
		return float64(x)
	}

	return v
}

// cred makes one more credential to present.
func (w *vpWorld) cred(subject string, v2 bool) *poolVC {
	r := w.r
	w.seq++
	iss := w.issuers[0]

	if r.Chance(1, 4, "self-issued") {
		iss = w.holders[r.Choose(2, "self")]
	}

	kind := r.Choose(4, "cred")
	vc := world.GenVC(r, world.VCSpec{Issuer: iss.DID, Subject: subject, V2: v2, Flat: true, Seq: w.seq, NoNumbers: true})
	i := r.Choose(len(iss.Cur), "key")
	k, kid := iss.Cur[i].Key, iss.KID(i)
	p := &poolVC{good: true, doc: vc}

	switch kind {
	case 0, 1:
		p.how = "jwt"
		h := world.J{"alg": k.Alg, "kid": kid, "typ": "JWT"}
		pay := world.J{"iss": iss.DID, "sub": subject, "jti": vc["id"], "vc": vc}
		rec := &tokRec{by: iss.DID, kid: kid, key: k}

		switch r.Choose(8, "forge") {
		case 0: // the attacker's signature under the issuer's name
			p.good, p.how = false, "forged jwt"
			k = w.evil.Cur[0].Key
			h["alg"] = k.Alg
			rec.by, rec.key = w.evil.DID, k

			if r.Chance(1, 2, "own-kid") {
				h["kid"] = w.evil.KID(0)
				rec.kid = w.evil.KID(0)
			}
		case 1:
			p.good, p.how = false, "unsecured jwt"
			p.tok = joinJWT(world.J{"alg": "none", "typ": "JWT"}, world.Enc(pay), nil)
		}

		if p.tok == "" {
			tok := signJWT(k, h, world.Enc(pay))
			_, rec.payload, _, _ = splitJWT(tok)
			rec.protect = world.Enc(h)
			p.tok, p.rec = tok, rec
			rec.attack = !p.good
			w.toks = append(w.toks, rec)

			if p.good && r.Chance(1, 8, "alter") {
				p.good, p.how, p.rec = false, "altered jwt", nil
				hh, pp, sg, _ := splitJWT(tok)
				j := world.Dec(pp)
				j["vc"].(map[string]any)["credentialSubject"].(map[string]any)["serial"] = "altered"
				p.tok = joinJWT(hh, world.Enc(j), sg)
			}
		}
	case 2:
		p.how = "ld"

		if s := w.ld.sign(iss, vc, 1); s != nil {
			p.raw, p.doc, p.self = s.doc, s.doc, iss.DID
		}
	case 3:
		p.how = "cose"
		msg, err := cbor.Marshal(world.J{"iss": iss.DID, "sub": subject, "vc": vc})

		if err != nil {
			panic(err)
		}

		rec := &tokRec{by: iss.DID, kid: kid, key: k, payload: msg}

		if r.Chance(1, 6, "forge") {
			p.good, p.how = false, "forged cose"
			k = w.evil.Cur[0].Key
			rec.by, rec.key, rec.attack = w.evil.DID, k, true
		}

		b := signCOSE(k, cose.ProtectedHeader{cose.HeaderLabelAlgorithm: coseAlg(k.Kind), cose.HeaderLabelKeyID: []byte(kid)}, msg)
		_, rec.protect = coseParts(b)
		p.tok, p.rec = hex.EncodeToString(b), rec
		w.toks = append(w.toks, rec)
	}

	if p.tok != "" {
		p.raw = p.tok
		if v2 {
			mt := "application/vc-ld+jwt"
			if kind == 3 {
				mt = "application/vc-ld+cose"
			}

			p.raw = world.J{"@context": []any{world.V2}, "id": "data:" + mt + "," + p.tok, "type": []any{"EnvelopedVerifiableCredential"}}
		}
	}

	if p.raw == nil {
		return nil
	}

	w.pool = append(w.pool, p)

	return p
}

// present makes a presentation through the code under test.
func (w *vpWorld) present(h *world.Actor) *vpSigned {
	r := w.r
	w.seq++
	v2 := r.Chance(1, 2, "v2")
	base := world.V1

	if v2 {
		base = world.V2
	}

	s := &vpSigned{by: h.DID, form: []string{"jwt", "jwt", "cose", "ld", "di", "unsecured"}[r.Choose(6, "form")]}

	var creds []*verifiable.Credential

	for i, n := 0, r.Choose(3, "creds"); i < n; i++ {
		p := w.cred(h.DID, v2)
		if p == nil {
			return nil
		}

		b := world.Enc(p.raw)
		c, err := verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(world.NewLoader(r)), verifiable.WithCredDisableValidation())

		if err != nil {
			r.Violate("cannot-issue", "parse", "a %s credential could not be read: %v\n%s", p.how, err, b)

			return nil
		}

		s.creds = append(s.creds, p)
		creds = append(creds, c)
	}

	vp, err := verifiable.NewPresentation(verifiable.WithCredentials(creds...), verifiable.WithBaseContext(base))
	if err != nil {
		r.Violate("cannot-issue", "new", "%v", err)

		return nil
	}

	vp.Context = append(vp.Context, world.Sim)
	s.doc = world.J{"@context": []any{base, world.Sim}}

	if r.Chance(3, 4, "id") {
		vp.ID = fmt.Sprintf("urn:uuid:vp-%d", w.seq)
		s.doc["id"] = vp.ID
	}

	if r.Chance(3, 4, "holder") {
		vp.Holder = h.DID
		s.doc["holder"] = h.DID
	}

	if r.Chance(1, 2, "type") {
		vp.Type = append(vp.Type, "SimPresentation")
	}

	s.doc["type"] = vp.Type

	if r.Chance(1, 2, "custom") {
		vp.CustomFields = verifiable.CustomFields{"note": fmt.Sprintf("n-%d", w.seq), "nested": map[string]any{"a": []any{"x", true}}}
		s.doc["note"], s.doc["nested"] = vp.CustomFields["note"], vp.CustomFields["nested"]
	}

	i := r.Choose(len(h.Cur), "key")
	k, kid := h.Cur[i].Key, h.KID(i)
	sg := &world.Signer{K: k, R: r}
	s.min = r.Chance(1, 3, "minimize")

	fail := func(what string, err error) *vpSigned {
		r.Violate("cannot-issue", what, "a valid presentation could not be made (%s, %s): %v\n%s", s.form, k.Kind, err, world.Enc(s.doc))

		return nil
	}

	switch s.form {
	case "jwt":
		var aud []string
		if r.Chance(1, 2, "aud") {
			aud = []string{"did:sim:verifier"}
		}

		out, err := vp.CreateJWTVP(aud, world.JWSAlg(k.Kind), world.Creator(sg), kid, s.min)
		if err != nil {
			return fail("sign", err)
		}

		hd, pay, _, ok := splitJWT(out.JWT)
		if !ok || hd["kid"] != kid || hd["alg"] != k.Alg {
			return fail("header", fmt.Errorf("header %v", hd))
		}

		s.tok = &tokRec{by: h.DID, kid: kid, key: k, protect: world.Enc(hd), payload: pay}
		if s.raw, err = out.MarshalJSON(); err != nil {
			return fail("marshal", err)
		}

		if r.Chance(1, 2, "bare") {
			s.raw = []byte(out.JWT)
		}
	case "cose":
		out, err := vp.CreateCWTVP(nil, coseAlg(k.Kind), world.Creator(sg), kid, s.min)
		if err != nil {
			return fail("sign", err)
		}

		m, pr := coseParts(out.CWT.Raw)
		if m == nil {
			return fail("cose", fmt.Errorf("no COSE message: %x", out.CWT.Raw))
		}

		s.tok = &tokRec{by: h.DID, kid: kid, key: k, protect: pr, payload: m.Payload}
		s.raw = out.CWT.Raw

		switch r.Choose(4, "as") {
		case 0:
			s.raw = []byte(hex.EncodeToString(s.raw))
		case 1:
			s.raw = world.Enc(hex.EncodeToString(s.raw))
		case 2:
			if v2 {
				if s.raw, err = out.MarshalJSON(); err != nil {
					return fail("marshal", err)
				}
			}
		}
	case "ld", "unsecured":
		for n := r.N(1, 2, "proofs"); n > 0; n-- {
			i := r.Choose(len(h.Cur), "key")
			c := w.ld.proofContext(h, i, &world.Signer{K: h.Cur[i].Key, R: r})

			if err := vp.AddLinkedDataProof(c, processor.WithDocumentLoader(world.NewLoader(r))); err != nil {
				return fail("sign", err)
			}

			b, err := vp.MarshalJSON()
			if err != nil {
				return fail("marshal", err)
			}

			s.raw = b

			rec := w.ld.record(h, i, world.Dec(b))
			if rec == nil {
				return nil
			}

			s.ld = append(s.ld, rec)
		}
	case "di":
		for n := r.N(1, 2, "proofs"); n > 0; n-- {
			i := r.Choose(len(h.Cur), "key")
			e := h.Cur[i]
			su := diSuites(e.Key.Kind)
			c := &verifiable.DataIntegrityProofContext{SigningKeyID: h.KID(i), ProofPurpose: []string{"authentication", "assertionMethod"}[r.Choose(2, "purpose")], CryptoSuite: su[0]}

			if r.Chance(1, 2, "challenge") {
				c.Challenge = fmt.Sprintf("ch-%d", r.Choose(2, "ch"))
				c.Domain = []string{"rp.example", "other.example"}[r.Choose(2, "dom")]
			}

			listed, _ := diLists(w.reg.Latest(h.DID), c.SigningKeyID, c.ProofPurpose, e.Key)
			now := time.Now()
			c.Created = &now

			if err := vp.AddDataIntegrityProof(c, w.di.diSigner(&world.Signer{K: e.Key, R: r}, calm{w.reg})); err != nil {
				if !listed {
					return nil
				}

				return fail("sign", err)
			}

			b, err := vp.MarshalJSON()
			if err != nil {
				return fail("marshal", err)
			}

			s.raw = b

			rec := w.di.record(h, i, world.Dec(b), c.ProofPurpose, c.CryptoSuite, c.Domain, c.Challenge, now, time.Time{})
			if rec == nil {
				return nil
			}

			s.di = append(s.di, rec)
		}
	}

	if s.tok != nil {
		w.toks = append(w.toks, s.tok)
	}

	if len(s.creds) == 1 {
		s.doc["verifiableCredential"] = []any{s.creds[0].embed()}
	} else if len(s.creds) > 0 {
		s.doc["verifiableCredential"] = []any{s.creds[0].embed(), s.creds[1].embed()}
	}

	if s.tok == nil {
		d := noProof(world.Dec(s.raw))
		if !sameVP(d, s.doc) {
			r.Violate("cannot-issue", "content", "the presentation does not say what its holder put in:\ngot  %s\nwant %s", world.Enc(d), world.Enc(s.doc))

			return nil
		}

		s.doc = world.Dec(s.raw)

		if s.form == "unsecured" {
			s.raw = []byte(joinJWT(world.J{"alg": "none", "typ": "JWT"}, world.Enc(unsecuredClaims(s.doc)), nil))
		}
	}

	w.signed = append(w.signed, s)
	r.Logf("presentation %d (%s) by %s with %d credentials", len(w.signed), s.form, h.DID, len(s.creds))

	return s
}

func unsecuredClaims(doc world.J) world.J {
	c := world.J{"vp": doc}
	if h := str(doc["holder"]); h != "" {
		c["iss"] = h
	}

	if h := str(doc["id"]); h != "" {
		c["jti"] = h
	}

	return c
}

// sameVP compares what two presentations say; one type and a list of one are the same.
func sameVP(a, b world.J) bool {
	n := func(d world.J) world.J {
		c := world.Dec(world.Enc(d))
		for _, k := range []string{"type", "@context", "verifiableCredential"} {
			if _, isList := c[k].([]any); !isList && c[k] != nil {
				c[k] = []any{c[k]}
			}
		}

		return c
	}

	return world.Same(n(a), n(b))
}

type vpDelivery struct {
	s     *vpSigned
	raw   []byte
	doc   world.J // of a JSON presentation
	how   string
	clean bool
	ld    []*ldRec
	di    []*diRec
}

// deliver picks what arrives at a verifier.
func (w *vpWorld) deliver() *vpDelivery {
	r := w.r
	s := w.signed[r.Choose(len(w.signed), "which")]
	d := &vpDelivery{s: s, raw: s.raw, ld: s.ld, di: s.di}

	if r.Chance(1, 3, "clean") {
		d.how, d.clean = "clean", true

		return d
	}

	r.FaultFired("message-tampered")

	switch s.form {
	case "jwt":
		w.tamperJWT(d)
	case "cose":
		w.tamperCOSE(d)
	default:
		w.tamperLD(d)
	}

	return d
}

// changeVP changes what a presentation says.
func (w *vpWorld) changeVP(vp world.J) string {
	r := w.r

	switch r.Choose(8, "change") {
	case 0:
		vp["holder"] = []any{w.evil.DID, w.holders[0].DID, w.holders[1].DID}[r.Choose(3, "holder")]

		return "holder changed"
	case 1:
		delete(vp, "verifiableCredential")

		return "credentials dropped"
	case 2:
		if len(w.pool) > 0 {
			vp["verifiableCredential"] = []any{world.Clone(w.pool[r.Choose(len(w.pool), "pool")].raw)}
		}

		return "credential replaced"
	case 3:
		a, _ := vp["verifiableCredential"].([]any)
		if len(w.pool) > 0 {
			vp["verifiableCredential"] = append(append([]any{}, a...), world.Clone(w.pool[r.Choose(len(w.pool), "pool")].raw))
		}

		return "credential added"
	case 4:
		vp["id"] = "urn:uuid:other"

		return "id changed"
	case 5:
		vp["type"] = []any{"VerifiablePresentation", "Evil"}

		return "type changed"
	}

	return "content: " + world.Mutate(r, vp, func(p string) bool { return strings.HasPrefix(p, "/proof") })
}

func (w *vpWorld) tamperJWT(d *vpDelivery) {
	r := w.r
	s := d.s
	tok := strings.Trim(string(s.raw), `"`)

	if i := strings.Index(tok, ","); i > 0 && strings.HasPrefix(str(world.Dec(s.raw)["id"]), "data:") {
		tok = str(world.Dec(s.raw)["id"])
		tok = tok[strings.Index(tok, ",")+1:]
	}

	h, p, sig, ok := splitJWT(tok)
	if !ok {
		panic("no JWT: " + tok)
	}

	pay := world.Dec(p)
	e := w.evil.Cur[0]

	switch r.Choose(12, "tamper") {
	case 0, 1:
		vp, _ := pay["vp"].(map[string]any)
		d.how = w.changeVP(vp)
		tok = joinJWT(h, world.Enc(pay), sig)
	case 2:
		k := []string{"iss", "aud", "jti", "nonce", "exp", "nbf"}[r.Choose(6, "claim")]
		pay[k] = []any{w.evil.DID, "x", 1, nil, []any{"x"}}[r.Choose(5, "v")]
		d.how = "claim changed"
		tok = joinJWT(h, world.Enc(pay), sig)
	case 3:
		d.how = "header: " + world.Mutate(r, h, nil)
		tok = joinJWT(h, p, sig)
	case 4:
		h["alg"] = []any{"none", "None", "", "HS256", "ES256", "EdDSA"}[r.Choose(6, "alg")]
		if r.Chance(1, 2, "nosig") {
			sig = nil
		}

		d.how = "alg changed"
		tok = joinJWT(h, p, sig)
	case 5:
		d.how = "signature changed"

		switch r.Choose(4, "sig") {
		case 0:
			sig = nil
		case 1:
			sig = make([]byte, len(sig))
		case 2:
			sig = sig[:len(sig)/2]
		case 3:
			sig = bytes.Clone(sig)
			sig[r.Choose(len(sig), "at")] ^= byte(1 + r.Choose(255, "bits"))
		}

		tok = joinJWT(h, p, sig)
	case 6: // re-signed by the attacker, under one name or another
		d.how = "re-signed by the attacker"

		if r.Chance(1, 2, "change") {
			d.how += ", " + w.changeVP(pay["vp"].(map[string]any))
		}

		kid := []string{str(h["kid"]), w.evil.KID(0), w.evil.DID + "#" + w.holders[0].Cur[0].Fragment, "#" + w.holders[0].Cur[0].Fragment}[r.Choose(4, "kid")]
		h["kid"], h["alg"] = kid, e.Key.Alg

		if kid == w.evil.KID(0) && r.Chance(1, 2, "holder") {
			pay["iss"] = w.evil.DID
		}

		p = world.Enc(pay)
		tok = signJWT(e.Key, h, p)
		w.toks = append(w.toks, &tokRec{by: w.evil.DID, kid: kid, key: e.Key, protect: world.Enc(h), payload: p, attack: true})
	case 7:
		o := w.toks[r.Choose(len(w.toks), "other")]
		d.how = "payload of another token"
		tok = joinJWT(h, o.payload, sig)
	case 8: // a credential's token in a presentation's place
		d.how = "another token"

		for _, x := range w.pool {
			if x.rec != nil && strings.Count(x.tok, ".") == 2 {
				tok = x.tok
			}
		}
	case 9:
		tok = world.GarbleText(r, tok)
		d.how = "garbled"
	case 10:
		tok = tok[:r.Choose(len(tok), "cut")]
		d.how = "truncated"
	case 11: // the payload without its signature
		d.how = "unsecured"
		tok = joinJWT(world.J{"alg": "none", "typ": "JWT"}, p, nil)

		if r.Chance(1, 2, "json") {
			d.how = "unsigned JSON"
			vp, _ := pay["vp"].(map[string]any)

			if r.Chance(1, 2, "proofs") {
				vp["proof"] = []any{[]any{}, world.J{}, nil, []any{nil}, world.J{"type": "DataIntegrityProof"}, "x"}[r.Choose(6, "bare")]
			}

			d.raw = world.Enc(vp)

			return
		}
	}

	d.raw = w.wrap(tok, "application/vp+jwt", "application/vp-ld+jwt")
}

// wrap puts a token in one of the envelopes a presentation may arrive in.
func (w *vpWorld) wrap(tok, other, mt string) []byte {
	switch w.r.Choose(5, "wrap") {
	case 0:
		return world.Enc(tok)
	case 1:
		return world.Enc(world.J{"@context": []any{world.V2}, "type": []any{"EnvelopedVerifiablePresentation"}, "id": "data:" + mt + "," + tok})
	case 2:
		return world.Enc(world.J{"@context": []any{world.V2}, "type": []any{"EnvelopedVerifiablePresentation", "VerifiablePresentation"}, "id": "data:" + mt + "," + tok, "holder": w.evil.DID,
			"verifiableCredential": []any{}, "proof": world.J{}})
	case 3:
		if w.r.Chance(1, 4, "odd") {
			return world.Enc(world.J{"@context": []any{world.V2}, "type": []any{"EnvelopedVerifiablePresentation"}, "id": []string{"data:" + other + "," + tok, "data:application/vp-ld+cose," + tok, "data:" + mt + ";base64," + tok, tok}[w.r.Choose(4, "odd")]})
		}
	}

	return []byte(tok)
}

func (w *vpWorld) tamperCOSE(d *vpDelivery) {
	r := w.r
	m, _ := coseParts(vpCOSE(d.s.raw))
	e := w.evil.Cur[0]

	var pay any

	_ = cbor.Unmarshal(m.Payload, &pay)
	j, _ := jsonOf(pay).(world.J)
	raw := []byte(nil)

	switch r.Choose(8, "tamper") {
	case 0, 1:
		vp, _ := j["vp"].(map[string]any)
		d.how = w.changeVP(vp)
		m.Payload, _ = cbor.Marshal(j)
	case 2:
		d.how = "signature changed"
		m.Signature = bytes.Clone(m.Signature)

		switch r.Choose(3, "sig") {
		case 0:
			m.Signature[r.Choose(len(m.Signature), "at")] ^= byte(1 + r.Choose(255, "bits"))
		case 1:
			m.Signature = make([]byte, len(m.Signature))
		case 2:
			m.Signature = m.Signature[:1+r.Choose(len(m.Signature)-1, "cut")]
		}
	case 3:
		d.how = "re-signed by the attacker"

		if r.Chance(1, 2, "change") {
			d.how += ", " + w.changeVP(j["vp"].(map[string]any))
		}

		b, _ := cbor.Marshal(j)
		kid := []string{d.s.tok.kid, w.evil.KID(0), w.evil.DID + "#" + w.holders[0].Cur[0].Fragment}[r.Choose(3, "kid")]
		h := cose.ProtectedHeader{cose.HeaderLabelAlgorithm: coseAlg(e.Key.Kind), cose.HeaderLabelKeyID: []byte(kid)}

		if r.Chance(1, 3, "cose-key") {
			if ck, err := cose.NewKeyFromPublic(e.Key.JWK.Public().Key); err == nil {
				kb, _ := ck.MarshalCBOR()
				h["COSE_Key"] = hex.EncodeToString(kb)

				if r.Chance(1, 2, "no-kid") {
					delete(h, cose.HeaderLabelKeyID)
				}
			}
		}

		raw = signCOSE(e.Key, h, b)
		_, pr := coseParts(raw)
		w.toks = append(w.toks, &tokRec{by: w.evil.DID, kid: kid, key: e.Key, protect: pr, payload: b, attack: true})
	case 4:
		d.how = "header changed"
		m.Headers.RawProtected = nil

		switch r.Choose(4, "hdr") {
		case 0:
			m.Headers.Protected[cose.HeaderLabelKeyID] = []byte(w.holders[r.Choose(2, "h")].KID(0))
		case 1:
			m.Headers.Protected[cose.HeaderLabelAlgorithm] = []cose.Algorithm{cose.AlgorithmES256, cose.AlgorithmEdDSA, cose.AlgorithmES384, 5}[r.Choose(4, "alg")]
		case 2:
			delete(m.Headers.Protected, []any{cose.HeaderLabelKeyID, cose.HeaderLabelAlgorithm}[r.Choose(2, "del")])
		case 3:
			m.Headers.Protected["extra"] = "x"
		}
	case 5:
		d.how = "garbled"
		raw = world.Garble(r, vpCOSE(d.s.raw))
	case 6:
		d.how = "payload of another message"
		m.Payload = w.toks[r.Choose(len(w.toks), "other")].payload
	case 7:
		d.how = "another message"

		for _, x := range w.pool {
			if x.how == "cose" {
				raw, _ = hex.DecodeString(x.tok)
			}
		}
	}

	if raw == nil {
		var err error
		if raw, err = m.MarshalCBOR(); err != nil {
			raw = []byte{0x84}
		}
	}

	d.raw = raw

	if r.Chance(1, 2, "hex") {
		d.raw = w.wrap(hex.EncodeToString(raw), "application/vp+cose", "application/vp-ld+cose")
	}
}

// vpCOSE takes a COSE message out of its envelope.
func vpCOSE(raw []byte) []byte {
	if m, _ := coseParts(raw); m != nil {
		return raw
	}

	s := strings.Trim(string(raw), `"`)

	if id := str(world.Dec(raw)["id"]); id != "" {
		s = id[strings.Index(id, ",")+1:]
	}

	b, _ := hex.DecodeString(s)

	return b
}

func (w *vpWorld) tamperLD(d *vpDelivery) {
	r := w.r
	d.doc = world.CloneJ(d.s.doc)
	ps, _ := proofsOf(d.doc)

	setProofs := func(ps []world.J) {
		a := make([]any, len(ps))
		for i := range ps {
			a[i] = ps[i]
		}

		d.doc["proof"] = a
	}

	forge := func() {
		vm := []string{w.evil.KID(0), w.holders[0].KID(0), w.evil.DID + "#" + w.holders[0].Cur[0].Fragment}[r.Choose(3, "vm")]

		var f world.J

		if d.s.form == "di" {
			f = w.di.forge(d.doc, vm)
		} else {
			f = w.ld.forgeProof(d.doc, vm)
		}

		if f == nil {
			return
		}

		switch r.Choose(3, "beside") {
		case 0:
			setProofs([]world.J{f})
		case 1:
			setProofs(append(append([]world.J{}, ps...), f))
		case 2:
			setProofs(append([]world.J{f}, ps...))
		}
	}

	switch r.Choose(11, "tamper") {
	case 0, 1, 2:
		d.how = w.changeVP(d.doc)
	case 3:
		d.how = "proof: " + world.Mutate(r, ps[r.Choose(len(ps), "p")], nil)
		setProofs(ps)
	case 4:
		p := ps[r.Choose(len(ps), "p")]
		k := []string{"challenge", "domain", "created", "proofPurpose", "verificationMethod", "cryptosuite", "type"}[r.Choose(7, "opt")]
		p[k] = map[string]any{"challenge": "ch-1", "domain": "other.example", "created": "2024-02-03T00:00:00Z", "proofPurpose": []string{"authentication", "assertionMethod"}[r.Choose(2, "pp")],
			"verificationMethod": w.holders[r.Choose(2, "h")].KID(0), "cryptosuite": "ecdsa-2019", "type": []string{"DataIntegrityProof", "JsonWebSignature2020", "Ed25519Signature2018"}[r.Choose(3, "t")]}[k]
		setProofs(ps)

		d.how = "proof option " + k + " changed"
	case 5:
		d.how = flipSig(r, ps[r.Choose(len(ps), "p")])
		setProofs(ps)
	case 6:
		d.how = "proof of another presentation"

		for _, o := range w.signed {
			if o != d.s && o.doc["proof"] != nil {
				d.doc["proof"] = world.Clone(o.doc["proof"])
			}
		}
	case 7:
		if r.Chance(1, 2, "change") {
			d.how = w.changeVP(d.doc) + ", "
		}

		d.how += "re-signed by the attacker"
		forge()
	case 8:
		d.doc["proof"] = []any{nil, []any{}, world.J{}, "x", []any{nil}, []any{world.J{}}, world.J{"type": "DataIntegrityProof"},
			[]any{world.J{"type": "DataIntegrityProof"}, ps[0]}}[r.Choose(8, "bare")]
		if r.Chance(1, 3, "drop") {
			delete(d.doc, "proof")
		}

		d.how = "no proof"
	case 9: // the proof of an embedded credential as the presentation's
		d.how = "proof of a credential"

		for _, c := range w.pool {
			if c.doc["proof"] != nil {
				d.doc["proof"] = world.Clone(c.doc["proof"])
			}
		}
	case 10:
		d.how = "garbled"
		d.raw = world.Garble(r, world.Enc(d.doc))
		d.doc = world.Dec(d.raw)

		return
	}

	d.raw = world.Enc(d.doc)
	d.doc = world.Dec(d.raw)

	if r.Chance(1, 4, "as-jwt") || d.s.form == "unsecured" {
		c := unsecuredClaims(d.doc)

		switch r.Choose(6, "claims") {
		case 0:
			c["iss"] = w.evil.DID
		case 1:
			c["jti"] = "urn:uuid:other"
		case 2:
			c["iss"] = w.holders[0].DID
		case 3:
			delete(c, "iss")
		}

		d.raw = []byte(joinJWT(world.J{"alg": "none", "typ": "JWT"}, world.Enc(c), nil))
	}
}

func runVP(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newVPWorld(r)

	if r.Chance(1, 2, "registry-faults") {
		w.reg.Fail, w.reg.Stale, w.reg.Slow = 50, 150, 60
	}

	if r.Chance(1, 4, "loader-faults") {
		w.loader.Fail, w.loader.Slow = 10, 20
	}

	w.present(w.holders[0])
	w.present(w.holders[1])

	if r.Failed() {
		return
	}

	tasks := []func(){func() {
		for op := 0; op < 3 && !r.Failed(); op++ {
			if r.Chance(1, 3, "rotate") {
				append(w.holders, w.issuers...)[r.Choose(3, "who")].Rotate()
			} else {
				w.present(w.holders[r.Choose(2, "who")])
			}

			r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
		}
	}}

	for i, n := 0, r.N(1, 2, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			for op := 0; op < 4 && !r.Failed(); op++ {
				w.verifyVP()
				r.Sleep(time.Duration(r.Choose(40, "pause")) * time.Second)
			}
		})
	}

	r.Parallel("actor", tasks...)
}

func (w *vpWorld) listed(rec *tokRec, res []world.Resolution) bool {
	for _, x := range res {
		if x.DID == rec.by && x.Version.Lists(rec.kid, rec.key) {
			return true
		}
	}

	return false
}

// everListed: every answer of the registry on the signer listed its key, and there was one.
func everListed(did, vm string, k *world.Key, res []world.Resolution) bool {
	n := 0

	for _, x := range res {
		if x.DID != did {
			continue
		}

		n++

		if !x.Version.Lists(vm, k) {
			return false
		}
	}

	return n > 0
}

// tokenBy finds who signed a token's header and payload under the name of issuer.
func (w *vpWorld) tokenBy(protect, payload []byte, jwt bool, issuer string, res []world.Resolution) (rec *tokRec, listed bool) {
	for _, x := range w.toks {
		same := bytes.Equal(x.protect, protect)
		if jwt {
			same = world.Dec(x.protect) != nil && world.Same(world.Dec(x.protect), world.Dec(protect))
		}

		if same && bytes.Equal(x.payload, payload) && x.by == issuer {
			rec = x
			if w.listed(x, res) {
				return x, true
			}
		}
	}

	return rec, false
}

func (w *vpWorld) verifyVP() {
	r := w.r

	if len(w.signed) == 0 {
		return
	}

	d := w.deliver()
	want := diWant{purpose: "assertionMethod"}
	opts := []verifiable.PresentationOpt{verifiable.WithPresProofChecker(w.checker), verifiable.WithPresJSONLDDocumentLoader(w.loader), verifiable.WithPresDataIntegrityVerifier(w.di.verifier)}

	switch r.Choose(4, "expect") {
	case 0:
	case 1, 2:
		if len(d.di) > 0 {
			o := d.di[0].opt
			want = diWant{purpose: o.purpose, domain: o.domain, challenge: o.challenge}

			if r.Chance(1, 6, "near-challenge") {
				want.challenge = near(r, o.challenge)
			} else if r.Chance(1, 6, "near-domain") {
				want.domain = near(r, o.domain)
			}
		}

		opts = append(opts, verifiable.WithPresExpectedDataIntegrityFields(want.purpose, want.domain, want.challenge))
	case 3:
		want = diWant{purpose: "authentication", challenge: []string{"", "ch-0", "ch-1"}[r.Choose(3, "want-ch")], domain: []string{"", "rp.example"}[r.Choose(2, "want-dom")]}
		opts = append(opts, verifiable.WithPresExpectedDataIntegrityFields(want.purpose, want.domain, want.challenge))
	}

	holderCheck := r.Chance(1, 3, "holder-check")
	opts = append(opts, verifiable.WithPresHolderCheck(holderCheck))
	noLD := r.Chance(1, 2, "no-jsonld")

	if noLD {
		opts = append(opts, verifiable.WithDisabledJSONLDChecks())
	}

	// a verifier that was given no proof checker must not accept what it cannot check
	bare := r.Chance(1, 12, "no-checker")
	if bare {
		opts = opts[1:]
	}

	from, ctxFail := len(w.reg.Log), w.loader.Failed
	raw := bytes.Clone(d.raw)

	var (
		vp  *verifiable.Presentation
		err error
	)

	t0 := time.Now()
	p := core.Do(func() { vp, err = verifiable.ParsePresentation(d.raw, opts...) })
	t1 := time.Now()

	if p != "" {
		r.Violate("panic", core.PanicSite(p), "parsing a presentation panicked: %s\ninput (%s): %s", p, d.how, show(raw))

		return
	}

	if !bytes.Equal(raw, d.raw) {
		r.Violate("input-changed", d.s.form, "parsing changed the caller's bytes (%s)\nbefore %s\nafter  %s", d.how, show(raw), show(d.raw))
	}

	res := w.reg.Window(from)
	kind := d.how

	if i := strings.IndexAny(kind, ":,"); i > 0 {
		kind = kind[:i]
	}

	r.Eval("%s %s creds=%d check=%v reg=%d ctx=%v accepted=%v", d.s.form, kind, len(d.s.creds), holderCheck, len(res), w.loader.Failed > ctxFail, err == nil)

	if err != nil {
		r.Logf("verify %s %s: refused: %v", d.s.form, d.how, err)

		if d.clean && w.mustAccept(d, res, want, t0, t1) && w.loader.Failed == ctxFail && !bare && (!holderCheck || selfIssued(d.s.doc, d.s) == "") {
			r.Violate("false-reject", d.s.form, "a genuine %s presentation, all its keys listed by the registry, was refused (expecting %+v): %v\ninput: %s", d.s.form, want, err, show(raw))
		}

		return
	}

	r.Logf("verify %s %s: accepted", d.s.form, d.how)

	bad := func(key, f string, a ...any) {
		r.Violate("accepted-unauthentic", key, "a presentation was accepted (expecting %+v) but %s\ninput (%s %s): %s", want, fmt.Sprintf(f, a...), d.s.form, d.how, show(raw))
	}

	var says world.J // what its holder signed

	switch {
	case vp.JWT != "":
		h, pay, _, ok := splitJWT(vp.JWT)
		if !ok {
			bad("not-a-jwt", "its JWT does not decode")

			return
		}

		kid := str(h["kid"])
		rec, listed := w.tokenBy(world.Enc(h), pay, true, strings.SplitN(kid, "#", 2)[0], res)

		if rec == nil {
			bad("not-signed", "the DID of its kid %q never signed it", kid)

			return
		}

		if !listed {
			bad("key-not-listed", "the registry's answers never listed the key %s", kid)

			return
		}

		c := world.Dec(pay)
		says, _ = c["vp"].(map[string]any)

		if says != nil {
			if x := str(c["iss"]); x != "" {
				says["holder"] = x
			}

			if x := str(c["jti"]); x != "" {
				says["id"] = x
			}
		}
	case vp.CWT != nil:
		m, pr := coseParts(vp.CWT.Raw)
		if m == nil {
			bad("not-cose", "its COSE message does not decode")

			return
		}

		kid, _ := m.Headers.Protected[cose.HeaderLabelKeyID].([]byte)
		rec, listed := w.tokenBy(pr, m.Payload, false, strings.SplitN(string(kid), "#", 2)[0], res)

		if rec == nil {
			bad("not-signed", "the DID of its kid %q never signed it", kid)

			return
		}

		if !listed {
			bad("key-not-listed", "the registry's answers never listed the key %s", kid)

			return
		}

		var pay any
		_ = cbor.Unmarshal(m.Payload, &pay)
		c, _ := jsonOf(pay).(world.J)
		says, _ = c["vp"].(map[string]any)

		if says != nil {
			if x := str(c["iss"]); x != "" {
				says["holder"] = x
			}

			if x := str(c["jti"]); x != "" {
				says["id"] = x
			}
		}
	default:
		doc := world.Dec(raw)

		if doc == nil {
			h, pay, _, ok := splitJWT(strings.Trim(string(raw), `"`))
			if !ok || h["alg"] != "none" {
				bad("not-json", "it is neither JSON nor an unsecured JWT")

				return
			}

			c := world.Dec(pay)
			doc, _ = c["vp"].(map[string]any)

			if x := str(c["iss"]); x != "" {
				doc["holder"] = x
			}

			if x := str(c["jti"]); x != "" {
				doc["id"] = x
			}
		}

		says = noProof(doc)

		ps, ok := proofsOf(doc)
		if !ok || len(ps) == 0 {
			bad("no-proof", "it carries no proof")

			return
		}

		if ps[0]["type"] == "DataIntegrityProof" {
			if key, why := w.di.authentic(doc, want, res, t0, t1); why != "" {
				bad(key, "%s", why)

				return
			}
		} else {
			for i, p := range ps {
				vm := str(p["verificationMethod"])
				if vm == "" {
					vm = str(p["creator"])
				}

				one := world.CloneJ(doc)
				one["proof"] = p

				if key, why := w.ld.authentic(one, strings.SplitN(vm, "#", 2)[0], res); why != "" {
					bad(key, "%s (proof %d)", strings.ReplaceAll(why, "its stated issuer", "the DID of its key"), i)

					return
				}
			}
		}
	}

	// the parsed presentation says what was signed
	if says == nil {
		bad("no-vp", "what was signed has no presentation in it")

		return
	}

	got := world.J{"@context": vp.Context, "type": vp.Type, "id": vp.ID, "holder": vp.Holder}
	wantHolder := says["holder"]

	if m, ok := wantHolder.(map[string]any); ok {
		wantHolder = m["id"]
	}

	wantDoc := world.J{"id": str(says["id"]), "holder": str(wantHolder)}
	for k, v := range says {
		if k != "verifiableCredential" && k != "proof" && k != "id" && k != "holder" {
			wantDoc[k] = v
		}
	}

	for k, v := range vp.CustomFields {
		got[k] = v
	}

	if len(vp.CustomContext) > 0 {
		got["@context"] = append(strsAny(vp.Context), vp.CustomContext...)
	}

	if !sameVP(got, wantDoc) {
		bad("content", "it reads\n%s\nand what was signed says\n%s", world.Enc(got), world.Enc(wantDoc))

		return
	}

	var in []any

	switch x := says["verifiableCredential"].(type) {
	case nil:
	case []any:
		in = x
	default:
		in = []any{x}
	}

	if len(in) != len(vp.Credentials()) {
		bad("credentials", "it reads %d credentials and %d were signed", len(vp.Credentials()), len(in))

		return
	}

	for i, c := range vp.Credentials() {
		t, isStr := in[i].(string)
		if o, ok := in[i].(map[string]any); ok && strings.Contains(fmt.Sprint(o["type"]), "EnvelopedVerifiableCredential") {
			isStr, t = true, str(o["id"])
		}

		if !isStr {
			continue // a JSON credential is checked by its CheckProof, see C06 and C07
		}

		if key, why := w.credAuthentic(c, t, res); why != "" {
			bad("credential-"+key, "its credential %d %s: %s", i, why, t)

			return
		}
	}

	if holderCheck {
		if why := selfIssued(says, nil, vp); why != "" {
			bad("holder", "%s", why)
		}
	}
}

func strsAny(s []string) []any {
	var o []any
	for _, x := range s {
		o = append(o, x)
	}

	return o
}

func show(b []byte) string {
	for _, c := range b {
		if c < 9 || c > 126 {
			return "hex " + hex.EncodeToString(b)
		}
	}

	return string(b)
}

// credAuthentic says what is wrong with accepting token t as credential c.
func (w *vpWorld) credAuthentic(c *verifiable.Credential, t string, res []world.Resolution) (key, why string) {
	if c.Contents().Issuer == nil {
		return "issuer", "has no issuer"
	}

	iss := c.Contents().Issuer.ID

	var (
		rec    *tokRec
		listed bool
		vc     world.J
	)

	if c.JWTEnvelope != nil {
		h, p, _, ok := splitJWT(c.JWTEnvelope.JWT)
		if !ok {
			return "not-signed", "has a JWT that does not decode"
		}

		rec, listed = w.tokenBy(world.Enc(h), p, true, iss, res)
		vc, _ = world.Dec(p)["vc"].(map[string]any)
	} else if c.CWTEnvelope != nil {
		m, pr := coseParts(c.CWTEnvelope.Sign1MessageRaw)
		if m == nil {
			return "not-signed", "has a COSE message that does not decode"
		}

		rec, listed = w.tokenBy(pr, m.Payload, false, iss, res)

		var pay any
		_ = cbor.Unmarshal(m.Payload, &pay)
		j, _ := jsonOf(pay).(world.J)
		vc, _ = j["vc"].(map[string]any)
	} else {
		return "no-envelope", "carries no signature of its issuer"
	}

	switch {
	case rec == nil:
		return "not-signed", "was never signed by its stated issuer " + iss
	case !listed:
		return "key-not-listed", "is signed with a key the registry's answers never listed: " + rec.kid
	case !world.Same(normDates(c.ToRawJSON()), normDates(vc)):
		return "content", fmt.Sprintf("reads %s and was signed as %s", world.Enc(c.ToRawJSON()), world.Enc(vc))
	}

	return "", ""
}

// mustAccept reports whether a clean delivery has to be accepted.
func (w *vpWorld) mustAccept(d *vpDelivery, res []world.Resolution, want diWant, t0, t1 time.Time) bool {
	for _, x := range res {
		if x.Version == nil {
			return false
		}
	}

	for _, c := range d.s.creds {
		if !c.good || c.rec != nil && !everListed(c.rec.by, c.rec.kid, c.rec.key, res) {
			return false
		}
	}

	switch d.s.form {
	case "jwt", "cose":
		return everListed(d.s.by, d.s.tok.kid, d.s.tok.key, res)
	case "di":
		return diMustAccept(d.di, want, res, t0, t1)
	}

	for _, x := range d.ld {
		if !everListed(x.by, x.vm, x.key, res) {
			return false
		}
	}

	return true
}

// selfIssued says how a presentation breaks the rule on self-issued credentials: if one is secured by a key of the
// presentation's own signer, the presentation must name a holder and it must be the credential's issuer.
func selfIssued(doc world.J, s *vpSigned, vps ...*verifiable.Presentation) string {
	signers := map[string]bool{}
	holder := str(doc["holder"])

	type cr struct {
		issuer, proof string
		subject       []string
	}

	var crs []cr

	if s != nil {
		ps, _ := proofsOf(s.doc)
		for _, p := range ps {
			signers[strings.SplitN(str(p["verificationMethod"]), "#", 2)[0]] = true
		}

		for _, c := range s.creds {
			iss, _ := c.doc["issuer"].(string)
			if m, ok := c.doc["issuer"].(map[string]any); ok {
				iss = str(m["id"])
			}

			crs = append(crs, cr{iss, c.self, []string{s.by}})
		}
	}

	for _, vp := range vps {
		for _, p := range vp.Proofs {
			signers[strings.SplitN(str(p["verificationMethod"]), "#", 2)[0]] = true
		}

		holder = vp.Holder

		for _, c := range vp.Credentials() {
			x := cr{}
			if c.Contents().Issuer != nil {
				x.issuer = c.Contents().Issuer.ID
			}

			for _, p := range c.Proofs() {
				x.proof = strings.SplitN(str(p["verificationMethod"]), "#", 2)[0]
			}

			for _, b := range c.Contents().Subject {
				x.subject = append(x.subject, b.ID)
			}

			crs = append(crs, x)
		}
	}

	subjects := map[string]bool{}

	for _, c := range crs {
		for _, b := range c.subject {
			subjects[b] = true
		}
	}

	if len(subjects) != 1 {
		return "" // documented: not checked with several subjects
	}

	for _, c := range crs {
		if c.proof != "" && signers[c.proof] && (holder == "" || holder != c.issuer) {
			return fmt.Sprintf("its holder is %q and the self-issued credential's issuer is %q", holder, c.issuer)
		}
	}

	return ""
}
