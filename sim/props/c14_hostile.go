package props

import (
	"crypto"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	diverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	afgjwt "github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	sdverifier "github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C14", Title: "No received bytes crash the process, hang it, or mean two things", Run: runHostile,
		Rule:    "one message of a hostile peer, delivered twice, and every operation on what was made of it",
		Measure: "kind of message x form x how far it got x operation",
		Real:    []string{"verifiable", "jwt", "cwt", "sdjwt", "presexch", "dataintegrity", "status", "didconfig/verifier", "proof/checker", "vermethod"},
		Stub:    []string{"DID registry (documents parsed by did-go)", "HTTP network", "JSON-LD document loader", "clock"},
	})
}

type hostWorld struct {
	*shWorld
	net *world.Net
	pe  []*peCred
	sch *verifiable.CredentialSchemaLoader
	how []string
}

func (w *hostWorld) wild(v any, most int) any {
	r := w.r
	v = world.Clone(v)

	for i, n := 0, r.Choose(most+1, "changes"); i < n; i++ {
		w.how = append(w.how, world.Wild(r, &v))
	}

	return v
}

func (w *hostWorld) text(v any) []byte {
	b := world.Enc(v)
	if w.r.Chance(1, 12, "wild-text") {
		w.how = append(w.how, "text")
		b = world.WildText(w.r, b)
	}

	return b
}

var b64u = base64.RawURLEncoding

// token signs any header and payload with the hostile issuer's key.
func (w *hostWorld) token(h, p any) string {
	r := w.r
	k := w.a.Cur[0].Key
	hb, pb := w.text(h), w.text(p)
	in := b64u.EncodeToString(hb) + "." + b64u.EncodeToString(pb)
	sig, _ := k.Sign([]byte(in))

	switch r.Choose(12, "signature") {
	case 0:
		sig = nil
	case 1:
		sig = world.Garble(r, sig)
	case 2:
		sig = sig[:r.Choose(len(sig), "short")]
	}

	t := in + "." + b64u.EncodeToString(sig)
	if r.Chance(1, 40, "garble-token") {
		t = world.GarbleText(r, t)
	}

	return t
}

// rewrite takes a signed message apart, changes it, and signs it again.
func (w *hostWorld) rewrite(b []byte) []byte {
	r := w.r
	s := string(b)

	switch {
	case r.Chance(1, 20, "bytes"):
		w.how = append(w.how, "bytes")

		return world.Garble(r, b)
	case strings.HasPrefix(s, "{"):
		return w.text(w.wild(world.Dec(b), 3))
	case strings.Contains(s, "~"):
		return []byte(w.rewriteSD(s))
	case strings.Count(s, ".") == 2:
		h, p, _, ok := splitJWT(s)
		if !ok {
			return b
		}

		var pv any
		if json.Unmarshal(p, &pv) != nil {
			return b
		}

		return []byte(w.token(w.wild(h, 1), w.wild(pv, 3)))
	}

	if m, _ := coseParts(b); m != nil {
		return w.rewriteCOSE(m)
	}

	if x, err := hex.DecodeString(s); err == nil {
		if m, _ := coseParts(x); m != nil {
			return []byte(hex.EncodeToString(w.rewriteCOSE(m)))
		}
	}

	return world.Garble(r, b)
}

func (w *hostWorld) rewriteCOSE(m *cose.Sign1Message) []byte {
	r := w.r

	var p any
	if cbor.Unmarshal(m.Payload, &p) != nil {
		return world.Garble(r, m.Payload)
	}

	p = w.wild(looseCBOR(p), 3)
	h := cose.ProtectedHeader{}

	for k, v := range m.Headers.Protected {
		h[k] = v
	}

	if r.Chance(1, 4, "headers") {
		w.how = append(w.how, "headers")

		switch r.Choose(6, "header") {
		case 0:
			h[cose.HeaderLabelKeyID] = []any{[]byte{}, "", []byte("x"), []byte("did:sim:issuer0"), []byte("#"), int64(1), nil}[r.Choose(7, "kid")]
		case 1:
			h[cose.HeaderLabelAlgorithm] = []any{cose.AlgorithmES256, cose.AlgorithmES512, cose.AlgorithmPS256, int64(-99), "EdDSA", nil}[r.Choose(6, "alg")]
		case 2:
			delete(h, cose.HeaderLabelKeyID)
		case 3:
			delete(h, cose.HeaderLabelKeyID)
			h["COSE_Key"] = []any{[]byte{}, []byte{0xa0}, []byte{0xa1, 1, 1}, []byte(coseKey(w.a.Cur[0].Key)), "x", nil, []any{}}[r.Choose(7, "key")]
		case 4:
			h[cose.HeaderLabelContentType] = world.WildValue(r, 2)
		case 5:
			h["x"] = world.WildValue(r, 1)
		}
	}

	pb, err := cbor.Marshal(p)
	if err != nil {
		return nil
	}

	if r.Chance(1, 12, "garble-payload") {
		pb = world.Garble(r, pb)
	}

	out := func() (b []byte) {
		defer func() { _ = recover() }()

		return signCOSE(w.a.Cur[0].Key, h, pb)
	}()

	if r.Chance(1, 12, "garble-message") {
		out = world.Garble(r, out)
	}

	return out
}

// looseCBOR gives CBOR maps text names where they have some, so that they can be changed like JSON.
func looseCBOR(v any) any {
	switch x := v.(type) {
	case map[any]any:
		o := world.J{}

		for k, e := range x {
			s, ok := k.(string)
			if !ok {
				s = fmt.Sprint(k)
			}

			o[s] = looseCBOR(e)
		}

		return o
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = looseCBOR(x[i])
		}

		return o
	}

	return v
}

// rewriteSD changes the payload, the disclosures (whose digests follow) and the form of an SD-JWT.
func (w *hostWorld) rewriteSD(s string) string {
	r := w.r
	if !strings.Contains(s, "~") {
		s += "~"
	}

	tok, discs, kb := splitSD(s)

	h, p, _, ok := splitJWT(tok)
	if !ok {
		return world.GarbleText(r, s)
	}

	discs = append([]string{}, discs...)

	for i := range discs {
		if !r.Chance(1, 4, "disclosure") {
			continue
		}

		var v any
		if b, err := b64u.DecodeString(discs[i]); err != nil || json.Unmarshal(b, &v) != nil {
			continue
		}

		n := b64u.EncodeToString(w.text(w.wild(v, 2)))

		if r.Chance(5, 6, "follow") {
			p = []byte(strings.ReplaceAll(string(p), sdHash(crypto.SHA256, discs[i]), sdHash(crypto.SHA256, n)))
		}

		// the digest may be in another disclosure
		for k := range discs {
			if b, err := b64u.DecodeString(discs[k]); err == nil && k != i && strings.Contains(string(b), sdHash(crypto.SHA256, discs[i])) {
				m := b64u.EncodeToString([]byte(strings.ReplaceAll(string(b), sdHash(crypto.SHA256, discs[i]), sdHash(crypto.SHA256, n))))
				p = []byte(strings.ReplaceAll(string(p), sdHash(crypto.SHA256, discs[k]), sdHash(crypto.SHA256, m)))
				discs[k] = m
			}
		}

		discs[i] = n
	}

	// a disclosure of the attacker's own
	if r.Chance(1, 6, "own") {
		v := []any{"salt", world.WildNames[r.Choose(len(world.WildNames), "name")], world.WildValue(r, 0)}
		if r.Chance(1, 3, "element") {
			v = []any{"salt", world.WildValue(r, 0)}
		}

		n := b64u.EncodeToString(world.Enc(v))
		discs = append(discs, n)

		if r.Chance(2, 3, "in-payload") {
			if q := world.Dec(p); q != nil {
				for _, at := range []string{"", "vc", "credentialSubject"} {
					o := q
					if at != "" {
						o, _ = q[at].(world.J)
					}

					if l, ok := o["_sd"].([]any); ok {
						o["_sd"] = append(l, sdHash(crypto.SHA256, n))

						break
					}
				}

				p = world.Enc(q)
			}
		}
	}

	if r.Chance(1, 8, "twice") && len(discs) > 0 {
		discs = append(discs, discs[r.Choose(len(discs), "which")])
	}

	var pv any
	if json.Unmarshal(p, &pv) != nil {
		return s
	}

	out := w.token(w.wild(h, 1), w.wild(pv, 2))
	for _, d := range discs {
		out += "~" + d
	}

	if r.Chance(7, 8, "tail") {
		out += "~" + kb
	}

	return out
}

// hostileDoc is a credential nobody should issue.
func (w *hostWorld) hostileDoc() world.J {
	r := w.r
	w.seq++
	d := world.GenVC(r, world.VCSpec{Issuer: w.a.DID, Subject: "did:sim:holder", V2: r.Chance(1, 2, "v2"), Flat: r.Chance(1, 2, "flat"), Seq: w.seq, NoNumbers: r.Chance(1, 2, "no-numbers")})

	if r.Chance(1, 3, "resources") {
		d["relatedResource"] = []any{world.J{"id": "https://res.example/a", "digestSRI": "sha256-x", "digestMultibase": "uEiA"}}
	}

	if r.Chance(1, 3, "schema") {
		d["credentialSchema"] = []any{world.J{"id": "https://schema.example/a", "type": "JsonSchema"}}
	}

	if r.Chance(1, 3, "status") {
		d["credentialStatus"] = []any{world.J{"id": "urn:st:1", "type": "StatusList2021Entry", "statusPurpose": "revocation", "statusListIndex": "1", "statusListCredential": "https://status.example/1"}}
	}

	if r.Chance(1, 4, "more") {
		d["termsOfUse"] = world.J{"type": "T", "id": "urn:t"}
		d["evidence"] = []any{world.J{"type": []any{"E"}, "id": "urn:e"}}
		d["refreshService"] = world.J{"id": "https://refresh.example", "type": "R"}
	}

	if v, ok := w.wild(d, 3).(world.J); ok {
		return v
	}

	return d
}

func (w *hostWorld) credOpts() []verifiable.CredentialOpt {
	r := w.r
	o := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.checker), verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithDataIntegrityVerifier(w.divf),
		verifiable.WithExpectedDataIntegrityFields("assertionMethod", "", "")}

	if r.Chance(1, 2, "schemas") {
		o = append(o, verifiable.WithCredentialSchemaLoader(w.sch))
	} else {
		o = append(o, verifiable.WithNoCustomSchemaCheck())
	}

	if r.Chance(1, 3, "no-proof-check") {
		o = append(o, verifiable.WithDisabledProofCheck())
	}

	switch r.Choose(6, "validation") {
	case 0:
	case 1:
		o = append(o, verifiable.WithStrictValidation())
	case 2:
		o = append(o, verifiable.WithJSONLDValidation())
	case 3:
		o = append(o, verifiable.WithBaseContextValidation(world.V1))
	default:
		o = append(o, verifiable.WithCredDisableValidation())
	}

	if r.Chance(1, 2, "resources-off") {
		o = append(o, verifiable.WithDisabledRelatedResourceCheck())
	}

	return o
}

// do runs one operation on hostile input.
func (w *hostWorld) do(what string, in []byte, f func()) bool {
	if p := core.Do(f); p != "" {
		w.r.Violate("crash", core.PanicSite(p), "%s crashed: %s\nafter %v, on\n%.6000s", what, p, w.how, in)

		return false
	}

	return !w.r.Failed()
}

// credential delivers a credential.
func (w *hostWorld) credential(b []byte) {
	r := w.r
	o := w.credOpts()
	what := "credential"

	switch {
	case strings.HasPrefix(string(b), "{"):
		what = "JSON credential"
	case strings.Contains(string(b), "~"):
		what = "SD-JWT credential"
	case strings.Count(string(b), ".") == 2:
		what = "JWT credential"
	}

	quiet := w.reg.Fail == 0 && w.loader.Fail == 0 && w.net.Rate == 0

	var (
		c, c2     *verifiable.Credential
		err, err2 error
	)

	if !w.do("parsing a "+what, b, func() { c, err = verifiable.ParseCredential(b, o...) }) {
		return
	}

	r.Reorder()

	if !w.do("parsing a "+what, b, func() { c2, err2 = verifiable.ParseCredential(b, o...) }) {
		return
	}

	r.Eval("%s: accepted %v", what, err == nil)
	r.Logf("%s %v: %.100v", what, w.how, err)

	if quiet && (err == nil) != (err2 == nil) {
		r.Violate("two-meanings", what, "parsed twice, the same bytes are once refused and once not (after %v): %v / %v\n%s", w.how, err, err2, b)

		return
	}

	if err != nil || err2 != nil {
		return
	}

	r.Probe("accepted " + what)

	if len(w.how) > 0 {
		r.Probe("accepted altered " + what)
	}

	var t, t2 string
	if !w.do("reading a "+what, b, func() { t, t2 = credText(c), credText(c2) }) {
		return
	}

	if t != t2 {
		r.Violate("two-meanings", what, "parsed twice, the same bytes say different things (after %v):\n%s\n%s\n%s", w.how, t, t2, b)

		return
	}

	f := &shForm{form: "received", raw: b, cred: c}
	if strings.Contains(what, "SD-JWT") {
		f.form = "sdjwt"
	}

	w.use(f, b)
}

// use runs operations on a credential that was accepted.
func (w *hostWorld) use(f *shForm, b []byte) {
	r := w.r
	own := w.copts
	w.copts = w.credOpts()

	defer func() { w.copts = own }()

	if !strings.HasPrefix(f.form, "sdjwt") && len(f.cred.SDJWTDisclosures()) > 0 {
		f.form = "sdjwt"
	}

	for i, n := 0, r.N(1, 6, "operations"); i < n; i++ {
		op := w.credOp(f, r.Choose(19, "op"), r.Choose(10, "variant"))

		var err error
		if !w.do(op.name+" of an accepted credential", b, func() { _, err = op.run() }) {
			return
		}

		r.Eval("%s of a hostile credential: %v", op.name, err == nil)
	}

	if r.Chance(1, 3, "status") {
		w.status(f.cred, b)
	}
}

func (w *hostWorld) status(c *verifiable.Credential, b []byte) {
	client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(w.net.Client(), vdrStub{g: w.reg}, "token")}

	var err error
	if w.do("checking the status of an accepted credential", b, func() { err = client.VerifyStatus(c) }) {
		w.r.Eval("status of a hostile credential: %.40v", err)
	}
}

// issued makes one signed credential of any form, of a hostile or an ordinary document.
func (w *hostWorld) issued() (b []byte) {
	r := w.r

	if r.Chance(1, 3, "json") {
		return w.text(w.hostileDoc())
	}

	n := len(w.forms)
	w.make()

	if len(w.forms) == n {
		return nil
	}

	b = w.forms[len(w.forms)-1].raw

	if r.Chance(1, 8, "enveloped") {
		mt := []string{"application/vc-ld+jwt,", "application/vc+jwt,", "application/vc-ld+sd-jwt,", "application/vc-ld+cwt;base64,", "application/json,", ""}[r.Choose(6, "media-type")]

		return world.Enc(world.J{"@context": world.V2, "type": "EnvelopedVerifiableCredential", "id": "data:" + mt + string(w.rewrite(b))})
	}

	return b
}

// services hands over a credential that names services the attacker runs himself.
func (w *hostWorld) services() {
	r := w.r
	w.seq++
	d := world.GenVC(r, world.VCSpec{Issuer: w.a.DID, Subject: "did:sim:holder", V2: r.Chance(1, 2, "v2"), Seq: w.seq})

	switch r.Choose(3, "service") {
	case 0:
		q := base64.StdEncoding.EncodeToString(w.text(w.wild([]any{world.J{"schema": "https://w3id.org/vc-status-list-2021/v1", "objectId": "x"}}, 1)))
		u := []string{"https://status.example/1", w.a.DID + "?service=IdentityHub&queries=" + q, w.a.DID + "?", "did:sim:", "", "https://"}[r.Choose(6, "list")]
		e := func() any {
			return w.wild(world.J{"id": "urn:st:1", "type": []any{"StatusList2021Entry", "BitstringStatusListEntry"}[r.Choose(2, "type")], "statusPurpose": "revocation", "statusListIndex": fmt.Sprint(r.Choose(20, "index")), "statusListCredential": u}, 1)
		}
		d["credentialStatus"] = e()

		if r.Chance(1, 2, "several") {
			d["credentialStatus"] = []any{e(), e()}
		}
	case 1:
		d["credentialSchema"] = w.wild([]any{world.J{"id": []any{"https://schema.example/a", "https://schema.example/b"}[r.Choose(2, "schema")], "type": "JsonSchema"}}, 1)
	default:
		body := []byte("resource")
		d["relatedResource"] = w.wild([]any{world.J{"id": "https://res.example/a", "digestSRI": sriOf(body)}}, 1)
	}

	b := w.text(d)

	var (
		c   *verifiable.Credential
		err error
	)

	o := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithCredentialSchemaLoader(w.sch)}
	if r.Chance(2, 3, "only-schema") {
		o = append(o, verifiable.WithBaseContextExtendedValidation(world.V1, []string{world.V1, world.V2}, []string{"VerifiableCredential"}))
	}

	if !w.do("parsing a credential with services", b, func() { c, err = verifiable.ParseCredential(b, o...) }) {
		return
	}

	r.Eval("credential with services accepted %v", err == nil)

	if err != nil {
		o = append(o, verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck())
		if c, err = verifiable.ParseCredential(b, o...); err != nil {
			return
		}
	}

	w.status(c, b)
}

func sriOf(b []byte) string {
	h := sha256.Sum256(b)

	return "sha256-" + base64.StdEncoding.EncodeToString(h[:])
}

// token of an attacker over a document no issuing API would sign.
func (w *hostWorld) rawToken() []byte {
	r := w.r
	d := w.hostileDoc()
	h := any(world.J{"alg": "EdDSA", "kid": w.a.KID(0), "typ": "JWT"})
	p := any(world.J{"vc": d, "iss": w.a.DID, "sub": "did:sim:holder", "nbf": 1700000000.0, "jti": "urn:x"})

	if r.Chance(1, 2, "bare") {
		p = d
	}

	if r.Chance(1, 3, "cose") {
		hh := cose.ProtectedHeader{cose.HeaderLabelAlgorithm: cose.AlgorithmEdDSA, cose.HeaderLabelKeyID: []byte(w.a.KID(0))}

		return signCOSE(w.a.Cur[0].Key, hh, world.EncCBOR(w.wild(p, 1)))
	}

	return []byte(w.token(w.wild(h, 1), w.wild(p, 1)))
}

func (w *hostWorld) presentation() {
	r := w.r

	var vcs []any

	for i, n := 0, r.Choose(4, "credentials"); i < n; i++ {
		b := w.issued()
		if b == nil {
			return
		}

		if r.Chance(1, 3, "rewrite") {
			b = w.rewrite(b)
		}

		if d := world.Dec(b); d != nil {
			vcs = append(vcs, d)
		} else {
			vcs = append(vcs, string(b))
		}
	}

	doc := world.J{"@context": []any{[]any{world.V1, world.V2}[r.Choose(2, "v2")]}, "type": []any{"VerifiablePresentation"}, "id": "urn:vp", "holder": w.a.DID, "verifiableCredential": vcs}

	if r.Chance(1, 3, "submission") {
		doc["presentation_submission"] = world.J{"id": "s", "definition_id": "d", "descriptor_map": []any{world.J{"id": "d0", "format": "jwt_vc", "path": "$.verifiableCredential[0]"}}}
	}

	var b []byte

	switch v := w.wild(doc, 3); r.Choose(5, "form") {
	case 0, 1:
		b = w.text(v)
	case 2:
		p := any(world.J{"vp": v, "iss": w.a.DID, "aud": "x", "nonce": "n", "jti": "urn:vp"})
		if r.Chance(1, 4, "bare") {
			p = v
		}

		b = []byte(w.token(w.wild(world.J{"alg": "EdDSA", "kid": w.a.KID(0), "typ": "JWT"}, 1), w.wild(p, 1)))
	case 3:
		p := any(world.J{"vp": v, "iss": w.a.DID, "aud": "x", "nonce": "n"})
		hh := cose.ProtectedHeader{cose.HeaderLabelAlgorithm: cose.AlgorithmEdDSA, cose.HeaderLabelKeyID: []byte(w.a.KID(0))}
		b = signCOSE(w.a.Cur[0].Key, hh, world.EncCBOR(w.wild(p, 1)))

		if r.Chance(1, 2, "hex") {
			b = []byte(hex.EncodeToString(b))
		}
	case 4:
		t := w.token(world.J{"alg": "EdDSA", "kid": w.a.KID(0), "typ": "JWT"}, world.J{"vp": v, "iss": w.a.DID})
		mt := []string{"application/vp-ld+jwt,", "application/vp+jwt,", "application/vp-ld+cwt;base64,", ""}[r.Choose(4, "media-type")]
		b = world.Enc(w.wild(world.J{"@context": world.V2, "type": "EnvelopedVerifiablePresentation", "id": "data:" + mt + t}, 1))
	}

	if r.Chance(1, 16, "bytes") {
		b = world.Garble(r, b)
	}

	o := []verifiable.PresentationOpt{verifiable.WithPresProofChecker(w.checker), verifiable.WithPresJSONLDDocumentLoader(w.loader), verifiable.WithPresDataIntegrityVerifier(w.divf),
		verifiable.WithPresExpectedDataIntegrityFields("assertionMethod", "", ""), verifiable.WithPresHolderCheck(r.Chance(1, 2, "holder-check")),
		verifiable.WithPresRelatedResourceCheck(r.Chance(1, 2, "resources"))}

	if r.Chance(2, 3, "no-proof-check") {
		o = append(o, verifiable.WithPresDisabledProofCheck())
	}

	if r.Chance(2, 3, "no-json-ld") {
		o = append(o, verifiable.WithDisabledJSONLDChecks())
	} else if r.Chance(1, 2, "strict") {
		o = append(o, verifiable.WithPresStrictValidation())
	}

	w.popts = o

	var (
		vp, vp2   *verifiable.Presentation
		err, err2 error
	)

	if !w.do("parsing a presentation", b, func() { vp, err = verifiable.ParsePresentation(b, o...) }) {
		return
	}

	r.Reorder()

	if !w.do("parsing a presentation", b, func() { vp2, err2 = verifiable.ParsePresentation(b, o...) }) {
		return
	}

	r.Eval("presentation accepted %v", err == nil)
	r.Logf("presentation %v: %.100v", w.how, err)

	if w.reg.Fail == 0 && w.loader.Fail == 0 && w.net.Rate == 0 && (err == nil) != (err2 == nil) {
		r.Violate("two-meanings", "presentation", "parsed twice, the same bytes are once refused and once not (after %v): %v / %v\n%s", w.how, err, err2, b)

		return
	}

	if err != nil || err2 != nil {
		return
	}

	r.Probe("accepted presentation")

	if len(w.how) > 0 {
		r.Probe("accepted altered presentation")
	}

	var t, t2 string
	if !w.do("reading a presentation", b, func() { t, t2 = fmt.Sprint(shJSON(vp, nil)), fmt.Sprint(shJSON(vp2, nil)) }) {
		return
	}

	if t != t2 {
		r.Violate("two-meanings", "presentation", "parsed twice, the same bytes say different things (after %v):\n%s\n%s\n%s", w.how, t, t2, b)

		return
	}

	for i, n := 0, r.N(1, 4, "operations"); i < n; i++ {
		if len(w.forms) == 0 {
			break
		}

		op := w.vpOp(vp, b, r.Choose(7, "vp-op"), r.Choose(4, "variant"))

		var err error
		if !w.do(op.name+" of an accepted presentation", b, func() { _, err = op.run() }) {
			return
		}

		r.Eval("%s of a hostile presentation: %v", op.name, err == nil)
	}

	w.match(vp, b)

	for _, c := range vp.Credentials() {
		if r.Chance(1, 2, "use") && !r.Failed() {
			w.use(&shForm{form: "received", cred: c, raw: b}, b)
		}
	}
}

// definition is a presentation definition with something wrong about it.
func (w *hostWorld) definition(hostile bool) *presexch.PresentationDefinition {
	r := w.r
	p := newPEWorld(r)

	for i, n := 0, r.N(1, 2, "wallet"); i < n; i++ {
		c := p.issue()
		if c == nil {
			return nil
		}

		p.creds = append(p.creds, c)
	}

	d := p.genDef(false)
	w.pe = p.creds

	v := any(d.json)
	if hostile && !r.Chance(1, 4, "plain-definition") {
		v = w.wild(v, 3)
	}

	var pd presexch.PresentationDefinition

	if json.Unmarshal(world.Enc(v), &pd) != nil {
		return nil
	}

	return &pd
}

func (w *hostWorld) match(vp *verifiable.Presentation, b []byte) {
	r := w.r

	if !r.Chance(1, 2, "match") {
		return
	}

	pd := &presexch.PresentationDefinition{ID: "d", InputDescriptors: []*presexch.InputDescriptor{{ID: "d0", Constraints: &presexch.Constraints{Fields: []*presexch.Field{{Path: []string{"$.id"}}}}}}}
	if r.Chance(1, 2, "definition") {
		if x := w.definition(false); x != nil {
			pd = x
		}
	}

	o := []presexch.MatchOption{presexch.WithCredentialOptions(w.credOpts()...), presexch.WithDisableSchemaValidation()}

	if r.Chance(1, 2, "merged") {
		s := any(world.J{"id": "s", "definition_id": pd.ID, "descriptor_map": []any{world.J{"id": "d0", "format": "jwt_vp", "path": "$[0]",
			"path_nested": world.J{"id": "d0", "format": "jwt_vc", "path": "$.vp.verifiableCredential[0]"}}}})
		if m, ok := w.wild(s, 3).(world.J); ok {
			o = append(o, presexch.WithMergedSubmissionMap(m))
		}
	}

	var err error

	vps := []*verifiable.Presentation{vp, vp}[:r.N(1, 2, "vps")]

	if w.do("matching an accepted presentation with "+string(world.Enc(asAny(pd))), b, func() { _, err = pd.Match(vps, w.loader, o...) }) {
		r.Eval("match of a hostile presentation: %v", err == nil)

		if err == nil {
			r.Probe("hostile presentation matched")
		}
	}
}

// answer has a wallet answer a hostile verifier.
func (w *hostWorld) answer() {
	r := w.r

	for i, n := 0, r.Choose(3, "wallet"); i < n; i++ {
		w.make()
	}

	pd := w.definition(true)
	if pd == nil || r.Failed() {
		return
	}

	var cs []*verifiable.Credential
	for _, f := range w.forms {
		cs = append(cs, f.cred)
	}

	for _, c := range w.pe {
		cs = append(cs, c.vc)
	}

	if r.Chance(1, 2, "hostile-credential") {
		b := w.issued()
		o := w.credOpts()

		var (
			c   *verifiable.Credential
			err error
		)

		if !w.do("parsing a credential", b, func() { c, err = verifiable.ParseCredential(b, o...) }) {
			return
		}

		if err == nil {
			cs = append(cs, c)
		}
	}

	in := world.Enc(asAny(pd))
	o := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(w.credOpts()...)}

	if r.Chance(1, 2, "jwt-vp") {
		o = append(o, presexch.WithDefaultPresentationFormat(presexch.FormatJWTVP))
	}

	var err error

	if !w.do("validating a definition", in, func() { err = pd.ValidateSchema() }) {
		return
	}

	r.Eval("definition valid %v", err == nil)

	ok := w.do("answering a definition", in, func() {
		switch r.Choose(3, "call") {
		case 0:
			var vp *verifiable.Presentation

			if vp, err = pd.CreateVP(cs, w.loader, o...); err == nil {
				_, _ = vp.MarshalJSON()
			}
		case 1:
			_, _, err = pd.CreateVPArray(cs, w.loader, o...)
		case 2:
			if r.Chance(1, 2, "apply") {
				o = append(o, presexch.WithSelectiveDisclosureApply())
			}

			_, err = pd.MatchSubmissionRequirement(cs, w.loader, o...)
		}
	})

	if ok {
		r.Eval("hostile definition answered %v", err == nil)

		if err == nil {
			r.Probe("definition answered")
		}
	}
}

// sdTools gives SD-JWTs to the SD-JWT packages themselves.
func (w *hostWorld) sdTools() {
	r := w.r
	mild := r.Chance(1, 2, "mild") // nearly honest, so that what lies deeper is reached
	wild := func(v any, most int) any {
		if mild && !r.Chance(1, 8, "change") {
			return v
		}

		return w.wild(v, most)
	}
	t := genClaims(r, "h")
	p := world.J{}

	for k, v := range t.claims {
		p[k] = v
	}

	p["_sd_alg"] = "sha-256"

	var discs []string

	for i, n := 0, r.Choose(5, "disclosures"); i < n; i++ {
		v := []any{fmt.Sprint("salt", i), world.WildNames[r.Choose(len(world.WildNames), "name")], t.claims}
		if mild {
			v[1] = fmt.Sprint("name", i)
		}

		d := b64u.EncodeToString(world.Enc(wild(v, 2)))
		discs = append(discs, d)

		switch l, _ := p["_sd"].([]any); r.Choose(3, "where") {
		case 0:
			p["arr"] = []any{world.J{"...": sdHash(crypto.SHA256, d)}, "x"}
		default:
			p["_sd"] = append(l, any(sdHash(crypto.SHA256, d)))
		}
	}

	if r.Chance(1, 2, "cnf") {
		p["cnf"] = world.J{"jwk": w.jwkOf()}
	}

	s := w.token(wild(world.J{"alg": "EdDSA", "kid": w.a.KID(0), "typ": "vc+sd-jwt"}, 1), wild(p, 2))
	for _, d := range discs {
		s += "~" + d
	}

	if r.Chance(7, 8, "tail") {
		s += "~"
	}

	if r.Chance(1, 3, "binding") {
		s += w.token(wild(world.J{"alg": "EdDSA", "typ": "kb+jwt"}, 1), wild(world.J{"iat": float64(time.Now().Unix()), "aud": "a", "nonce": "n", "sd_hash": sdHash(crypto.SHA256, s)}, 2))
	}

	if r.Chance(1, 4, "rewrite") {
		s = w.rewriteSD(s)
	}

	in := []byte(s)
	nop := &holder.NoopSignatureVerifier{}

	var err error

	ok := w.do("SD-JWT holder", in, func() {
		var cs []*holder.Claim
		cs, err = holder.Parse(s, holder.WithSignatureVerifier(nop), holder.WithSDJWTV5Validation(r.Chance(1, 2, "v5")))
		names := []string{}

		for _, c := range cs {
			names = append(names, c.Disclosure)
		}

		_, _ = holder.CreatePresentation(s, names)
	}) && w.do("SD-JWT verifier", in, func() {
		_, err = sdverifier.Parse(s, sdverifier.WithSignatureVerifier(nop), sdverifier.WithHolderBindingRequired(r.Chance(1, 3, "kb")),
			sdverifier.WithHolderVerificationRequired(r.Chance(1, 6, "hv")), sdverifier.WithExpectedAudienceForHolderVerification("a"), sdverifier.WithExpectedNonceForHolderVerification("n"))
	}) && w.do("SD-JWT common", in, func() {
		cf := common.ParseCombinedFormatForPresentation(s)
		_ = cf.Serialize()
		ci := common.ParseCombinedFormatForIssuance(s)
		_ = ci.Serialize()

		tok, _, e := afgjwt.Parse(cf.SDJWT)
		if e != nil {
			return
		}

		_ = common.VerifyTyp(tok.Headers, "vc+sd-jwt")
		_ = common.VerifyJWT(tok, 0)
		_ = common.VerifySigningAlg(tok.Headers, []string{"EdDSA"})
		_, _ = common.GetCryptoHashFromClaims(tok.Payload)
		_, _ = common.GetDisclosureDigests(tok.Payload)
		_, _ = common.GetCNF(tok.Payload)

		dc, e := common.GetDisclosureClaims(cf.Disclosures, crypto.SHA256)
		if e != nil {
			return
		}

		_, _ = common.GetDisclosedClaims(dc, tok.Payload)
		_ = common.VerifyDisclosuresInSDJWT(cf.Disclosures, tok)
	})

	if ok {
		r.Eval("SD-JWT tools: verified %v", err == nil)

		if err == nil {
			r.Probe("SD-JWT verified")
		}
	}
}

func (w *hostWorld) jwkOf() world.J {
	b, err := w.a.Cur[0].Key.JWK.MarshalJSON()
	if err != nil {
		return nil
	}

	return world.Dec(b)
}

// plain tokens of any content.
func (w *hostWorld) tokens() {
	r := w.r
	h := w.wild(world.J{"alg": "EdDSA", "kid": w.a.KID(0), "typ": "JWT", "jwk": w.jwkOf()}, 2)
	p := w.wild(world.J{"iss": w.a.DID, "sub": "x", "aud": []any{"a"}, "exp": 4e9, "nonce": "n"}, 2)
	t := w.token(h, p)
	iss := w.a.DID

	var err error

	if !w.do("jwt", []byte(t), func() {
		_ = afgjwt.IsJWS(t)
		_ = afgjwt.IsJWTUnsecured(t)
		var j *afgjwt.JSONWebToken
		if j, _, err = afgjwt.Parse(t); err == nil {
			_, _ = j.Serialize(r.Chance(1, 2, "detached"))
			_ = j.LookupStringHeader("typ")
			var m map[string]any
			_ = j.DecodeClaims(&m)
			_, _ = afgjwt.PayloadToMap(m)
			_ = afgjwt.CheckHeaders(j.Headers)
		}

		_, _, err = afgjwt.ParseAndCheckProof(t, w.checker, r.Chance(1, 2, "with-issuer"))
		_ = afgjwt.CheckProof(t, w.checker, &iss, []byte("x"))
		if hm, ok := h.(world.J); ok {
			_ = w.checker.CheckJWTProof(jose.Headers(hm), iss, []byte("m"), []byte("s"))
		}
	}) {
		return
	}

	r.Eval("JWT verified %v", err == nil)

	hh := cose.ProtectedHeader{cose.HeaderLabelAlgorithm: cose.AlgorithmEdDSA, cose.HeaderLabelKeyID: []byte(w.a.KID(0))}
	m, _ := coseParts(signCOSE(w.a.Cur[0].Key, hh, world.EncCBOR(p)))

	if m == nil {
		return
	}

	b := w.rewriteCOSE(m)
	if r.Chance(1, 3, "as-it-is") {
		b = signCOSE(w.a.Cur[0].Key, hh, world.EncCBOR(p))
	}

	if w.do("cwt", b, func() {
		if c, e := cwt.Parse(b); e == nil {
			_ = cwt.CheckProof(c, w.checker, &iss, []byte("x"), nil)
		}

		_, _, err = cwt.ParseAndCheckProof(b, w.checker, r.Chance(1, 2, "with-issuer"))
	}) {
		r.Eval("CWT verified %v", err == nil)

		if err == nil {
			r.Probe("CWT verified")
		}
	}
}

// linked is a hostile domain's DID configuration.
func (w *hostWorld) linked() {
	r := w.r
	d := world.J{"@context": []any{world.V1, "https://identity.foundation/.well-known/did-configuration/v1"}, "type": []any{"VerifiableCredential", "DomainLinkageCredential"},
		"issuer": w.a.DID, "issuanceDate": "2024-01-01T00:00:00Z", "expirationDate": "2030-01-01T00:00:00Z", "credentialSubject": world.J{"id": w.a.DID, "origin": "https://a.example"}}
	c := any(d)

	if r.Chance(1, 2, "jwt") {
		c = w.token(w.wild(world.J{"alg": "EdDSA", "kid": w.a.KID(0)}, 1), w.wild(world.J{"vc": d, "iss": w.a.DID, "sub": w.a.DID, "nbf": 1700000000.0, "exp": 1900000000.0}, 2))
	}

	b := w.text(w.wild(world.J{"@context": "https://identity.foundation/.well-known/did-configuration/v1", "linked_dids": []any{c}}, 3))

	var err error
	if w.do("checking a DID configuration", b, func() {
		err = diverifier.VerifyDIDAndDomain(b, w.a.DID, "https://a.example", diverifier.WithVDRegistry(w.reg), diverifier.WithJSONLDDocumentLoader(w.loader))
	}) {
		r.Eval("DID configuration accepted %v", err == nil)

		if err == nil {
			r.Probe("DID configuration accepted")
		}
	}
}

// didDoc checks the proof of a hostile DID document, and has it resolved by everything that follows.
func (w *hostWorld) didDoc() {
	r := w.r
	k := w.jwkOf()
	vm := world.J{"id": w.a.KID(0), "type": "JsonWebKey2020", "controller": w.a.DID, "publicKeyJwk": k}

	switch r.Choose(4, "vm") {
	case 0:
		vm = world.J{"id": w.a.KID(0), "type": "Ed25519VerificationKey2020", "controller": w.a.DID, "publicKeyMultibase": "z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK"}
	case 1:
		vm = world.J{"id": w.a.KID(0), "type": "Ed25519VerificationKey2018", "controller": w.a.DID, "publicKeyBase58": "B12NYF8RrR3h41TDCTJojY59usg3mbtbjnFs7Eud1Y6u"}
	}

	d := world.J{"@context": []any{"https://www.w3.org/ns/did/v1"}, "id": w.a.DID, "verificationMethod": []any{vm}, "assertionMethod": []any{w.a.KID(0)}, "authentication": []any{w.a.KID(0)},
		"service": []any{world.J{"id": "#hub", "type": "IdentityHub", "serviceEndpoint": world.J{"instances": []any{"https://hub.example"}}}},
		"proof":   world.J{"type": "Ed25519Signature2018", "created": "2024-01-01T00:00:00Z", "jws": "e30..AAAA", "proofPurpose": "assertionMethod", "verificationMethod": w.a.KID(0)}}

	b := world.Enc(w.wild(d, 4))

	var (
		doc *did.Doc
		err error
	)

	if core.Do(func() { doc, err = did.ParseDocument(b) }) != "" || err != nil || doc == nil {
		return
	}

	v := w.a.Publish()
	doc.ID = w.a.DID
	v.Doc = doc
	w.how, w.lenient = append(w.how, "DID document"), true

	r.Eval("hostile DID document published")

	w.do("checking the proof of a DID document", b, func() {
		err = verifiable.VerifyDIDProof(doc, verifiable.WithDIDProofChecker(w.checker), verifiable.WithDIDJSONLDDocumentLoader(w.loader), verifiable.WithDIDDataIntegrityVerifier(w.divf))
	})
}

// di gives documents to the data integrity packages themselves.
func (w *hostWorld) dataIntegrity() {
	r := w.r
	d := w.hostileDoc()
	at := time.Date(2024, 2, 1, 0, 0, 0, 0, time.UTC)
	o := &models.ProofOptions{SuiteType: "eddsa-rdfc-2022", Purpose: "assertionMethod", VerificationMethodID: w.a.KID(0), ProofType: models.DataIntegrityProof, Created: at}
	doc := world.Enc(d)

	var err error

	if !w.do("adding a data integrity proof", doc, func() {
		var s []byte
		if s, err = w.dis.AddProof(doc, o); err == nil {
			doc = s
		}
	}) {
		return
	}

	b := doc
	if x := world.Dec(doc); x != nil {
		b = w.text(w.wild(x, 3))
	}

	if w.do("verifying a data integrity proof", b, func() {
		err = w.divf.VerifyProof(b, &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof})
	}) {
		r.Eval("data integrity proof accepted %v", err == nil)
	}
}

func runHostile(r *core.Run) {
	r.Configure(core.Params{})

	w := &hostWorld{shWorld: newSharedWorld(r), net: world.NewNet(r)}
	w.sch = verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(w.net.Client()).Build()

	prev, prevT := verifiable.DefaultRelatedResourceValidator, http.DefaultTransport
	http.DefaultTransport = w.net // what follows references in schemas
	verifiable.DefaultRelatedResourceValidator = verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(w.net))

	defer func() { verifiable.DefaultRelatedResourceValidator, http.DefaultTransport = prev, prevT }()

	w.net.Serve("https://res.example/a", &world.Resource{Body: []byte("resource")})
	w.net.Serve("https://schema.example/b", &world.Resource{Body: world.Enc(w.wild(world.J{"allOf": []any{world.J{"type": "object"}, world.J{"not": world.J{"type": "string"}}}, "definitions": world.J{"a": world.J{"anyOf": []any{true}}}}, 2))})
	w.net.Serve("https://schema.example/a", &world.Resource{Body: world.Enc(w.wild(world.J{"type": "object", "properties": world.J{"credentialSubject": world.J{"type": []any{"object", "array"}}}, "required": []any{"issuer"}}, 2))})
	w.net.Serve("https://hub.example", &world.Resource{Body: world.Enc(w.wild(world.J{"requestId": "x", "status": world.J{"code": 200.0}, "replies": []any{world.J{"messageId": "m", "status": world.J{"code": 200.0}, "entries": []any{world.J{"descriptor": world.J{"method": "CollectionsQuery", "objectId": "x"}, "data": "e30"}}}}}, 3))})

	switch r.Choose(8, "faults") {
	case 6:
		w.reg.Fail, w.loader.Fail, w.net.Rate, w.lenient = 100, 50, 200, true
	case 7:
		w.net.Rate, w.lenient = 500, true // only what the services answer is broken
	}

	if r.Chance(1, 4, "hostile-did") {
		if w.didDoc(); r.Failed() {
			return
		}
	}

	// the list a status check fetches
	if r.Chance(1, 2, "status-list") {
		l := world.J{"@context": []any{world.V1, "https://w3id.org/vc/status-list/2021/v1"}, "id": "https://status.example/1", "type": []any{"VerifiableCredential", "StatusList2021Credential"}, "issuer": w.a.DID, "issuanceDate": "2024-01-01T00:00:00Z",
			"credentialSubject": world.J{"id": "urn:l", "type": "StatusList2021", "statusPurpose": "revocation", "encodedList": "H4sIAAAAAAAA_2NgGAWjYBSMglEwCkbBKBgFo2AUjIJRMApGwSgYBaNgFIyCUTAKRsEoGAWjYBSMglEwCkbBKBgFo2AUjIJRMApGwSgYBaNgFIyCUTAKRsEoGAWjYBSMglEwCgC8mZ0AAAAA"}}
		w.net.Serve("https://status.example/1", &world.Resource{Body: w.text(w.wild(l, 2))})
	}

	for i, n := 0, r.N(1, 3, "messages"); i < n && !r.Failed(); i++ {
		w.how = nil

		switch r.Choose(14, "message") {
		case 12, 13:
			w.services()
		case 0, 1:
			if b := w.issued(); b != nil {
				w.credential(b)
			}
		case 2, 3:
			if b := w.issued(); b != nil {
				w.credential(w.rewrite(b))
			}
		case 4:
			w.credential(w.rawToken())
		case 5, 6:
			w.presentation()
		case 7:
			w.answer()
		case 8:
			w.sdTools()
		case 9:
			w.tokens()
		case 10:
			w.linked()
		case 11:
			w.dataIntegrity()
		}
	}
}
