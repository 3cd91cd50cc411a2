package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C05", Title: "A JWT credential is accepted only if its stated issuer's current key signed it", Run: runJWT,
		Rule:    "one verification of one delivered JWT credential, judged against the record of what each issuer signed with which key and the DID document version the registry answered with",
		Measure: "algorithm x delivery tampering x key history state x registry fault x verdict",
		Real:    []string{"verifiable (JWT credentials)", "jwt", "proof/checker", "proof/jwtproofs", "proof/creator", "crypto-ext verifiers", "vermethod"},
		Stub:    []string{"DID registry", "remote signer", "delivery channel", "clock"},
	})
}

// jwtSigned is one token an actor really signed.
type jwtSigned struct {
	by      string // DID
	kid     string
	key     *world.Key
	token   string
	content world.J // what the credential says; nil for an attacker's free-form token
	attack  string
}

func splitJWT(s string) (h world.J, p, sig []byte, ok bool) {
	ps := strings.Split(s, ".")
	if len(ps) != 3 {
		return nil, nil, nil, false
	}

	dec := func(x string) []byte {
		b, err := base64.RawURLEncoding.DecodeString(x)
		if err != nil {
			ok = false
		}

		return b
	}
	ok = true
	h = world.Dec(dec(ps[0]))
	p, sig = dec(ps[1]), dec(ps[2])

	return h, p, sig, ok && h != nil
}

func joinJWT(h world.J, p, sig []byte) string {
	e := base64.RawURLEncoding
	return e.EncodeToString(world.Enc(h)) + "." + e.EncodeToString(p) + "." + e.EncodeToString(sig)
}

// signJWT signs without the code under test.
func signJWT(k *world.Key, h world.J, payload []byte) string {
	e := base64.RawURLEncoding
	in := e.EncodeToString(world.Enc(h)) + "." + e.EncodeToString(payload)

	sig, err := k.Sign([]byte(in))
	if err != nil {
		panic(err)
	}

	return in + "." + e.EncodeToString(sig)
}

// normDates gives the form a credential's dates have after a trip through JWT claims.
func normDates(vc world.J) world.J {
	c := world.CloneJ(vc)

	for _, k := range []string{"issuanceDate", "expirationDate", "validFrom", "validUntil"} {
		if s, ok := c[k].(string); ok {
			if t, err := time.Parse(time.RFC3339, s); err == nil {
				c[k] = t.UTC().Format(time.RFC3339)
			}
		}
	}

	return c
}

type jwtWorld struct {
	r       *core.Run
	reg     *world.Registry
	issuers []*world.Actor
	evil    *world.Actor
	signed  []*jwtSigned
	seq     int
	checker verifiable.CombinedProofChecker
	loader  *world.Loader
}

func pickKinds(r *core.Run, max int) []world.Kind {
	var ks []world.Kind
	for i, n := 0, r.N(1, max, "keys"); i < n; i++ {
		ks = append(ks, world.Kinds[r.Choose(len(world.Kinds), "kind")])
	}

	return ks
}

func newJWTWorld(r *core.Run) *jwtWorld {
	w := &jwtWorld{r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r)}

	for i := 0; i < 2; i++ {
		w.issuers = append(w.issuers, world.NewActor(r, w.reg, fmt.Sprintf("did:sim:issuer%d", i), pickKinds(r, 3)...))
	}

	w.evil = world.NewActor(r, w.reg, evilDID(r, w.issuers[0].DID), pickKinds(r, 2)...)

	if r.Chance(1, 3, "evil-doc") {
		// the attacker's own DID document claims the victim's method id
		e := w.evil.Cur[0]
		e.ID = w.issuers[0].KID(0)
		w.evil.Cur = append(w.evil.Cur, e)
		w.evil.Publish()
	}

	w.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(w.reg))

	return w
}

// issue makes a real JWT credential through the code under test.
func (w *jwtWorld) issue(a *world.Actor) *jwtSigned {
	r := w.r
	w.seq++
	vc := world.GenVC(r, world.VCSpec{Issuer: a.DID, Subject: "did:sim:holder", V2: r.Chance(1, 2, "v2"), Flat: true, Seq: w.seq})
	i := r.Choose(len(a.Cur), "key")
	k, kid := a.Cur[i].Key, a.KID(i)
	minimize := r.Chance(1, 3, "minimize")

	if r.Chance(1, 10, "sloppy-kid") { // no DID document has a method of this name
		kid = sloppyKID(r, a, i, w.evil)
	}

	popts := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.loader)}
	if !r.Chance(1, 16, "validate") {
		popts = append(popts, verifiable.WithCredDisableValidation()) // validation is slow and not the point here
	}

	cred, err := verifiable.ParseCredential(world.Enc(vc), popts...)
	if err != nil {
		r.Violate("cannot-issue", "parse", "a valid credential was refused: %v\n%s", err, world.Enc(vc))

		return nil
	}

	s := &world.Signer{K: k, R: r}

	jc, err := cred.CreateSignedJWTVC(minimize, world.JWSAlg(k.Kind), world.Creator(s), kid)
	if err != nil {
		r.Violate("cannot-issue", "sign", "a valid credential could not be signed: %v\n%s", err, world.Enc(vc))

		return nil
	}

	tok, err := jc.ToJWTString()
	if err != nil {
		r.Violate("cannot-issue", "string", "%v", err)

		return nil
	}

	h, _, _, ok := splitJWT(tok)
	if !ok || h["alg"] != k.Alg || h["kid"] != kid {
		r.Violate("wrong-header", "issue", "the signed credential's header is %v, want alg %s kid %s", h, k.Alg, kid)
	}

	js := &jwtSigned{by: a.DID, kid: kid, key: k, token: tok, content: normDates(vc)}
	w.signed = append(w.signed, js)
	r.Logf("issue %d by %s with %s (minimize %v)", w.seq, a.DID, kid, minimize)

	return js
}

// sloppyKID is almost the name of a verification method.
func sloppyKID(r *core.Run, a *world.Actor, i int, other *world.Actor) string {
	r.FaultFired("inexact-key-name")
	f := a.Cur[i].Fragment

	switch r.Choose(8, "sloppy") {
	case 0:
		return a.DID + "#x-" + f
	case 1:
		return a.DID + "#" + f + "0"
	case 2:
		return a.DID + "#" + strings.ToUpper(f)
	case 3:
		return "#" + f
	case 4:
		return f
	case 5:
		return other.DID + "#" + f + "x"
	case 6:
		return a.DID + "?versionId=1#" + f
	}

	return a.DID
}

// forge makes a token the attacker signs with its own key to look like the victim's.
func (w *jwtWorld) forge(victim *world.Actor) (string, string) {
	r := w.r
	w.seq++
	v2 := r.Chance(1, 2, "v2")
	vc := world.GenVC(r, world.VCSpec{Issuer: victim.DID, Subject: "did:sim:evil", V2: v2, Flat: true, Seq: w.seq})
	e := w.evil.Cur[0]
	h := world.J{"alg": e.Key.Alg, "kid": w.evil.KID(0), "typ": "JWT"}
	p := world.J{"iss": victim.DID, "sub": "did:sim:evil", "jti": vc["id"], "nbf": 1704067200, "vc": vc}
	how := ""
	raw := []byte(nil)

	switch r.Choose(12, "forge") {
	case 0:
		how = "attacker's kid"
	case 1:
		how = "victim's kid"
		h["kid"] = victim.KID(0)
	case 2:
		how = "attacker in vc.issuer, victim in iss"
		vc["issuer"] = w.evil.DID
	case 3:
		how = "victim in vc.issuer, attacker in iss"
		p["iss"] = w.evil.DID
	case 4:
		how = "victim in vc.issuer, no iss"
		delete(p, "iss")
	case 5:
		how = "attacker object in vc.issuer, victim in iss"
		vc["issuer"] = world.J{"id": w.evil.DID}
	case 6:
		how = "two vc members"
		a := world.CloneJ(vc)
		a["issuer"] = w.evil.DID
		raw = []byte(fmt.Sprintf(`{"iss":%q,"vc":%s,"vc":%s}`, w.evil.DID, world.Enc(a), world.Enc(vc)))
	case 7:
		how = "two iss members"
		delete(vc, "issuer")
		raw = []byte(fmt.Sprintf(`{"iss":%q,"iss":%q,"vc":%s}`, w.evil.DID, victim.DID, world.Enc(vc)))
	case 8:
		how = "embedded jwk"
		jb, _ := e.Key.JWK.MarshalJSON()
		h["jwk"] = world.Dec(jb)
		h["kid"] = victim.KID(0)
	case 9:
		how = "attacker's DID with the victim's fragment"
		h["kid"] = w.evil.DID + "#" + victim.Cur[0].Fragment
	case 10:
		how = "issuer without an id, victim in iss"
		vc["issuer"] = world.J{"name": "x"}
	case 11:
		how = "case variants"
		raw = []byte(fmt.Sprintf(`{"iss":%q,"ISS":%q,"Iss":%q,"vc":%s}`, w.evil.DID, victim.DID, victim.DID, world.Enc(vc)))
	}

	if raw == nil {
		raw = world.Enc(p)
	}

	w.r.FaultFired("forged-token")
	tok := signJWT(e.Key, h, raw)
	w.signed = append(w.signed, &jwtSigned{by: w.evil.DID, kid: fmt.Sprint(h["kid"]), key: e.Key, token: tok, attack: how})

	return tok, how
}

// tamper damages a token in delivery.
func (w *jwtWorld) tamper(js *jwtSigned) (string, string) {
	r := w.r
	h, p, sig, ok := splitJWT(js.token)

	if !ok {
		return js.token, ""
	}

	pay := world.Dec(p)

	other := w.signed[r.Choose(len(w.signed), "other")]
	oh, op, osig, _ := splitJWT(other.token)

	r.FaultFired("message-tampered")

	switch r.Choose(14, "tamper") {
	case 0:
		return joinJWT(h, world.Enc(func() world.J { world.Mutate(r, pay, nil); return pay }()), sig), "payload changed"
	case 1:
		pay["iss"] = w.evil.DID

		if vc, ok := pay["vc"].(map[string]any); ok && r.Chance(1, 2, "both") {
			vc["issuer"] = w.evil.DID
		}

		return joinJWT(h, world.Enc(pay), sig), "issuer changed"
	case 2:
		world.Mutate(r, h, nil)

		return joinJWT(h, p, sig), "header changed"
	case 3:
		if len(sig) == 0 {
			return js.token, ""
		}

		i := r.Choose(len(sig), "sig-byte")
		s := bytes.Clone(sig)
		s[i] ^= byte(1 << r.Choose(8, "sig-bit"))

		return joinJWT(h, p, s), "signature bit flipped"
	case 4:
		return joinJWT(h, p, sig[:len(sig)-1-r.Choose(len(sig)-1, "cut")]), "signature cut"
	case 5:
		return joinJWT(h, p, append(bytes.Clone(sig), 0)), "signature extended"
	case 6:
		return joinJWT(h, p, make([]byte, len(sig))), "signature zeroed"
	case 7:
		return joinJWT(h, p, osig), "signature of another token"
	case 8:
		return joinJWT(h, op, sig), "payload of another token"
	case 9:
		return joinJWT(oh, p, sig), "header of another token"
	case 10:
		h["alg"] = []any{"none", "None", "", "HS256", "ES256", "EdDSA", "RS256", nil, 1}[r.Choose(9, "alg")]
		s := sig

		if r.Chance(1, 2, "nosig") {
			s = nil
		}

		return joinJWT(h, p, s), "alg changed"
	case 11:
		return js.token[:r.Choose(len(js.token), "cut")], "truncated"
	case 12:
		return world.GarbleText(r, js.token), "garbled"
	default:
		// re-signed by the attacker under the victim's header
		return signJWT(w.evil.Cur[0].Key, h, p), "re-signed by the attacker"
	}
}

// unsigned makes an unsecured credential that claims to be the victim's.
func (w *jwtWorld) unsigned(victim *world.Actor) (string, string) {
	r := w.r
	w.seq++
	vc := world.GenVC(r, world.VCSpec{Issuer: victim.DID, Subject: "did:sim:evil", V2: r.Chance(1, 2, "v2"), Flat: true, Seq: w.seq})
	w.r.FaultFired("unsigned-document")

	how := "plain"

	switch r.Choose(8, "unsigned") {
	case 0:
	case 1:
		vc["proof"] = []any{}
		how = "empty proof set"
	case 2:
		vc["proof"] = nil
		how = "null proof"
	case 3:
		vc["proof"] = world.J{}
		how = "empty proof"
	case 4:
		vc["proof"] = world.J{"type": "DataIntegrityProof"}
		how = "bare data integrity proof"
	case 5:
		vc["proof"] = []any{world.J{"type": "Ed25519Signature2018", "created": "2024-01-01T00:00:00Z", "jws": "eyJhbGciOiJFZERTQSJ9..",
			"verificationMethod": victim.KID(0), "proofPurpose": "assertionMethod"}}
		how = "proof with an empty signature"
	case 6:
		vc["proof"] = "x"
		how = "string proof"
	case 7:
		vc["jwt"] = "a.b.c"
		how = "jwt member"
	}

	if r.Chance(1, 2, "as-jwt") {
		return joinJWT(world.J{"alg": "none", "typ": "JWT"}, world.Enc(world.J{"iss": victim.DID, "sub": "did:sim:evil", "vc": vc}), nil), "unsecured jwt, " + how
	}

	return string(world.Enc(vc)), "unsigned JSON, " + how
}

// wrap puts a token in one of the envelopes a credential may arrive in.
func (w *jwtWorld) wrap(tok string) ([]byte, string) {
	switch w.r.Choose(5, "wrap") {
	case 1:
		return world.Enc(tok), "quoted"
	case 2:
		return world.Enc(world.J{"jwt": tok}), "jwt member"
	case 3:
		return world.Enc(world.J{"@context": []any{world.V2}, "type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + tok}), "enveloped"
	case 4:
		// a wrapper that claims other things than the token
		return world.Enc(world.J{"jwt": tok, "@context": []any{world.V1}, "type": "VerifiableCredential", "issuer": "did:sim:issuer0",
			"credentialSubject": world.J{"id": "did:sim:evil", "rich": true}, "issuanceDate": "2024-01-01T00:00:00Z"}), "jwt member among lies"
	}

	return []byte(tok), "bare"
}

func runJWT(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newJWTWorld(r)

	if r.Chance(1, 2, "registry-faults") {
		w.reg.Fail, w.reg.Stale, w.reg.Slow = 80, 250, 60
	}

	verifiers := r.N(1, 3, "verifiers")

	var tasks []func()

	tasks = append(tasks, func() {
		for op := 0; op < 6 && !r.Failed(); op++ {
			a := w.issuers[r.Choose(len(w.issuers), "who")]

			switch {
			case r.Chance(1, 2, "rotate"):
				a.Rotate()
			default:
				w.issue(a)
			}

			r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
		}
	})

	w.issue(w.issuers[0])

	for i := 0; i < verifiers; i++ {
		tasks = append(tasks, func() {
			for op := 0; op < 5 && !r.Failed(); op++ {
				w.verifyOne()
				r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
			}
		})
	}

	r.Parallel("actor", tasks...)
}

func (w *jwtWorld) verifyOne() {
	r := w.r

	if len(w.signed) == 0 {
		return
	}

	var tok, how string

	clean := false
	js := w.signed[r.Choose(len(w.signed), "which")]

	switch r.Choose(6, "delivery") {
	case 0, 1:
		tok, how, clean = js.token, "clean", true
	case 2, 3:
		tok, how = w.tamper(js)
	case 4:
		tok, how = w.forge(w.issuers[r.Choose(len(w.issuers), "victim")])
	case 5:
		tok, how = w.unsigned(w.issuers[r.Choose(len(w.issuers), "victim")])
	}

	data, wrapped := w.wrap(tok)
	opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.loader)}
	late := r.Chance(1, 3, "check-later")

	if late {
		opts = append(opts, verifiable.WithDisabledProofCheck())
	} else if r.Chance(1, 2, "jwt-only") {
		opts = append(opts, verifiable.WithJWTProofChecker(w.checker), verifiable.WithLDProofChecker(w.checker))
	} else {
		opts = append(opts, verifiable.WithProofChecker(w.checker))
	}

	if r.Chance(1, 2, "no-related") {
		opts = append(opts, verifiable.WithDisabledRelatedResourceCheck())
	}

	if r.Chance(1, 3, "no-validation") {
		opts = append(opts, verifiable.WithCredDisableValidation())
	}

	from := len(w.reg.Log)

	var (
		cred *verifiable.Credential
		err  error
	)

	if p := core.Do(func() {
		cred, err = verifiable.ParseCredential(data, opts...)

		if err == nil && late {
			err = cred.CheckProof(verifiable.WithProofChecker(w.checker), verifiable.WithJSONLDDocumentLoader(w.loader))
		}
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "credential verification panicked: %s\ninput (%s, %s): %s", p, how, wrapped, data)

		return
	}

	res := w.reg.Window(from)
	state := ""

	if err != nil {
		r.Logf("verify %s/%s: refused: %v", how, wrapped, err)

		// a genuine, untouched token must be accepted if the registry listed its key
		ok := clean && js.attack == "" && len(res) == 1 && res[0].DID == js.by && res[0].Version.Lists(js.kid, js.key)
		if clean && js.attack == "" && len(res) == 0 {
			r.Violate("false-reject", "no lookup", "a genuine credential was refused before the registry was asked: %v\n%s", err, data)
		}

		if ok {
			r.Violate("false-reject", "genuine", "a genuine credential, its key listed by the registry, was refused: %v\ninput (%s): %s", err, wrapped, data)
		}

		switch {
		case len(res) == 0:
			state = "none"
		case res[0].Version == nil:
			state = "unresolved"
		default:
			state = fmt.Sprint(res[0].Version.Lists(js.kid, js.key))
		}

		r.Eval("%s %s clean=%v %s refused registry=%s", js.key.Kind, how, clean, wrapped, state)

		return
	}

	r.Logf("verify %s/%s: accepted", how, wrapped)
	r.Eval("%s %s clean=%v %s accepted late=%v", js.key.Kind, how, clean, wrapped, late)

	// accepted: find the act of signing behind it
	bad := func(key, f string, a ...any) {
		r.Violate("accepted-unauthentic", key, "a credential was accepted but %s\ninput (%s, %s): %s", fmt.Sprintf(f, a...), how, wrapped, data)
	}

	if cred.Contents().Issuer == nil || cred.JWTEnvelope == nil {
		bad("no-envelope", "it carries no JWT and no signature of its issuer exists")

		return
	}

	issuer := cred.Contents().Issuer.ID

	h, p, sig, ok := splitJWT(cred.JWTEnvelope.JWT)
	if !ok {
		bad("not-a-jwt", "its JWT does not decode")

		return
	}

	var by *jwtSigned

	exact := false

	for _, s := range w.signed {
		sh, sp, ss, _ := splitJWT(s.token)
		if world.Same(sh, h) && bytes.Equal(sp, p) && s.by == issuer {
			if by == nil {
				by = s
			}

			exact = exact || bytes.Equal(ss, sig)
		}
	}

	if by == nil {
		bad("not-signed", "its stated issuer %s never signed it (header %v)", issuer, h)

		return
	}

	if !exact {
		bad("signature", "%s never made the signature %x", issuer, sig)

		return
	}

	listed := false

	for _, x := range res {
		if x.DID == issuer && x.Version.Lists(by.kid, by.key) {
			listed = true
		}
	}

	if !listed {
		bad("key-not-listed", "the registry's answers never listed its key %s for a purpose other than key agreement", by.kid)

		return
	}

	if by.content != nil {
		got := cred.ToRawJSON()
		if !world.Same(got, by.content) {
			bad("content", "its content differs from what was signed:\ngot  %s\nwant %s", world.Enc(got), world.Enc(by.content))
		}

		c := cred.Contents()
		if c.ID != by.content["id"] {
			bad("content-id", "its id reads %q, signed %v", c.ID, by.content["id"])
		}

		if len(c.Subject) != 1 || c.Subject[0].ID != "did:sim:holder" {
			bad("content-subject", "its subject reads %v", c.Subject)
		}

		for f, g := range map[string]string{"expirationDate": tw(c.Expired), "validUntil": tw(c.Expired), "issuanceDate": tw(c.Issued), "validFrom": tw(c.Issued)} {
			if s, ok := by.content[f].(string); ok && s != g {
				bad("content-date", "its %s reads %q, signed %q", f, g, s)
			}
		}
	}
}

func tw(t interface{ FormatToString() string }) string {
	b, err := json.Marshal(t)
	if err != nil || string(b) == "null" {
		return ""
	}

	var s string
	if json.Unmarshal(b, &s) != nil {
		return ""
	}

	if x, err := time.Parse(time.RFC3339, s); err == nil {
		return x.UTC().Format(time.RFC3339)
	}

	return s
}
