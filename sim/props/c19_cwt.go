package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C19", Title: "A CWT credential is accepted only if its stated issuer's current key signed it", Run: runCWT,
		Rule:    "one verification of one delivered COSE message, judged against the record of what each actor signed with which key and the DID document version the registry answered with",
		Measure: "algorithm x delivery tampering x key history state x registry fault x verdict",
		Real:    []string{"verifiable (CWT credentials)", "cwt", "verifiable/cwt", "proof/checker", "proof/jwtproofs", "proof/creator", "crypto-ext verifiers", "vermethod"},
		Stub:    []string{"DID registry", "remote signer", "delivery channel", "clock"},
	})
}

// cwtSigned is one COSE message an actor really signed.
type cwtSigned struct {
	by      string
	kid     string // "": by key material only
	key     *world.Key
	raw     []byte
	protect []byte
	payload []byte
	content world.J // what the credential says; nil for a free-form message
	proof   bool    // a key possession proof and not a credential
	attack  string
}

type cwtWorld struct {
	r       *core.Run
	reg     *world.Registry
	loader  *world.Loader
	issuers []*world.Actor
	evil    *world.Actor
	signed  []*cwtSigned
	seq     int
	checker *checker.ProofChecker
}

var coseKinds = []world.Kind{world.Ed, world.P256, world.P384, world.RSAPS}

func newCWTWorld(r *core.Run) *cwtWorld {
	w := &cwtWorld{r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r)}

	actor := func(id string, max int) *world.Actor {
		var ks []world.Kind
		for i, n := 0, r.N(1, max, "keys"); i < n; i++ {
			ks = append(ks, coseKinds[r.Choose(len(coseKinds), "kind")])
		}

		return world.NewActor(r, w.reg, id, ks...)
	}

	w.issuers = []*world.Actor{actor("did:sim:issuer0", 3), actor("did:sim:issuer1", 3)}
	w.evil = actor(evilDID(r, w.issuers[0].DID), 2)

	if r.Chance(1, 3, "evil-doc") {
		// the attacker's own DID document claims the victim's method id
		e := w.evil.Cur[0]
		e.ID = w.issuers[0].KID(0)
		w.evil.Cur = append(w.evil.Cur, e)
		w.evil.Publish()
	}

	w.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(w.reg))

	return w
}

func (w *cwtWorld) sign(a *world.Actor, i int, kid string, h cose.ProtectedHeader, payload []byte) *cwtSigned {
	k := a.Cur[i].Key
	if kid != "" {
		h[cose.HeaderLabelKeyID] = []byte(kid)
	}

	if _, ok := h[cose.HeaderLabelAlgorithm]; !ok {
		h[cose.HeaderLabelAlgorithm] = coseAlg(k.Kind)
	}

	raw := signCOSE(k, h, payload)
	_, pr := coseParts(raw)

	return &cwtSigned{by: a.DID, kid: kid, key: k, raw: raw, protect: pr, payload: payload}
}

func coseKey(k *world.Key) string {
	ck, err := cose.NewKeyFromPublic(k.JWK.Public().Key)
	if err != nil {
		return ""
	}

	b, err := ck.MarshalCBOR()
	if err != nil {
		return ""
	}

	return hex.EncodeToString(b)
}

// issue makes a real CWT credential through the code under test.
func (w *cwtWorld) issue(a *world.Actor) {
	r := w.r
	w.seq++
	v2 := r.Chance(1, 2, "v2")
	vc := world.GenVC(r, world.VCSpec{Issuer: a.DID, Subject: "did:sim:holder", V2: v2, Flat: true, Seq: w.seq})

	if v2 && r.Chance(1, 4, "no-from") {
		delete(vc, "validFrom") // optional in the data model 2.0
	}

	i := r.Choose(len(a.Cur), "key")
	k, kid := a.Cur[i].Key, a.KID(i)

	if r.Chance(1, 10, "sloppy-kid") {
		kid = sloppyKID(r, a, i, w.evil)
	}

	cred, err := verifiable.ParseCredential(world.Enc(vc), verifiable.WithDisabledProofCheck(),
		verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithCredDisableValidation())
	if err != nil {
		r.Violate("cannot-issue", "parse", "a valid credential was refused: %v\n%s", err, world.Enc(vc))

		return
	}

	var cc *verifiable.Credential

	if p := core.Do(func() {
		cc, err = cred.CreateSignedCOSEVC(coseAlg(k.Kind), world.Creator(&world.Signer{K: k, R: r}), kid)
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "signing a valid credential as a CWT panicked: %s\n%s", p, world.Enc(vc))

		return
	}

	if err != nil {
		r.Violate("cannot-issue", "sign", "a valid credential could not be signed: %v\n%s", err, world.Enc(vc))

		return
	}

	raw, err := cc.MarshalAsCWTLD()
	if err != nil {
		r.Violate("cannot-issue", "bytes", "%v", err)

		return
	}

	m, pr := coseParts(raw)
	if m == nil {
		r.Violate("cannot-issue", "message", "the signed credential is no COSE_Sign1 message: %x", raw)

		return
	}

	if alg, _ := m.Headers.Protected.Algorithm(); alg != coseAlg(k.Kind) || fmt.Sprintf("%s", m.Headers.Protected[cose.HeaderLabelKeyID]) != kid {
		r.Violate("wrong-header", "issue", "the signed credential's protected header is %v, want alg %v kid %s", m.Headers.Protected, coseAlg(k.Kind), kid)
	}

	w.signed = append(w.signed, &cwtSigned{by: a.DID, kid: kid, key: k, raw: raw, protect: pr, payload: m.Payload, content: vc})
	r.Logf("issue %d by %s with %s", w.seq, a.DID, kid)
}

// prove makes a key possession proof as wallets send to issuers: integer claims and the key in the header.
func (w *cwtWorld) prove(a *world.Actor) {
	r := w.r
	w.seq++
	claims := map[any]any{1: a.DID, 3: "https://issuer.example", 6: 1706706927 + w.seq, 10: fmt.Sprintf("nonce-%d", w.seq)}
	i := r.Choose(len(a.Cur), "key")
	h := cose.ProtectedHeader{"COSE_Key": coseKey(a.Cur[i].Key), cose.HeaderLabelContentType: "application/openid4vci-proof+cwt"}
	kid := a.KID(i)

	if h["COSE_Key"] == "" {
		return // the COSE library has no such keys
	}

	switch r.Choose(4, "proof-form") {
	case 0:
		kid = ""
	case 1:
		delete(claims, 1)
	case 2:
		kid = ""
		delete(claims, 1)
	}

	s := w.sign(a, i, kid, h, world.EncCBOR(claims))
	s.proof = true
	w.signed = append(w.signed, s)
	r.Logf("proof %d by %s with %q", w.seq, a.DID, kid)
}

// forge makes a message the attacker signs with its own key to look like the victim's.
func (w *cwtWorld) forge(victim *world.Actor) *cwtSigned {
	r := w.r
	w.seq++
	vc := world.GenVC(r, world.VCSpec{Issuer: victim.DID, Subject: "did:sim:evil", V2: r.Chance(1, 2, "v2"), Flat: true, Seq: w.seq})
	e := w.evil.Cur[0]
	kid, h := w.evil.KID(0), cose.ProtectedHeader{}
	p := map[any]any{"iss": victim.DID, "sub": "did:sim:evil", "nbf": 1704067200, "vc": vc}
	how := ""

	var raw []byte

	un := map[any]any{}

	switch r.Choose(14, "forge") {
	case 0:
		how = "attacker's kid"
	case 1:
		how = "victim's kid"
		kid = victim.KID(0)
	case 2:
		how = "attacker in vc.issuer, victim in iss"
		vc["issuer"] = w.evil.DID
	case 3:
		how = "victim in vc.issuer, attacker in iss"
		p["iss"] = w.evil.DID
		p[1] = w.evil.DID
	case 4:
		how = "no kid, the attacker's key in the header"
		kid = ""
		h["COSE_Key"] = coseKey(e.Key)
	case 5:
		how = "the victim's kid and the attacker's key in the header"
		kid = victim.KID(0)
		h["COSE_Key"] = coseKey(e.Key)
	case 6:
		how = "two vc members"
		a := world.CloneJ(vc)
		a["issuer"] = w.evil.DID
		raw = dupMap("iss", w.evil.DID, "vc", a, "vc", vc)
	case 7:
		how = "two issuer members"
		m := []any{"issuer", w.evil.DID}
		for _, k := range world.Keys(vc) {
			m = append(m, k, vc[k])
		}

		raw = dupMap("iss", w.evil.DID, "vc", cbor.RawMessage(dupMap(m...)))
	case 8:
		how = "two issuer members, one under a byte string"
		m := map[any]any{cbor.ByteString("issuer"): w.evil.DID}
		for k, v := range vc {
			m[k] = v
		}

		p["vc"] = m
	case 9:
		how = "attacker's DID with the victim's fragment"
		kid = w.evil.DID + "#" + victim.Cur[0].Fragment
	case 10:
		how = "the kid outside the protected header"
		un[int64(4)] = []byte(victim.KID(0))
		un["COSE_Key"] = coseKey(e.Key)
		kid = ""
	case 11:
		how = "the attacker is the issuer under its own name"
		vc["issuer"] = w.evil.DID
		p["iss"] = w.evil.DID
	case 12:
		how = "a possession proof of the attacker in the victim's name"
		p = map[any]any{1: victim.DID, 3: "https://issuer.example", 10: "nonce-x"}
		h["COSE_Key"] = coseKey(e.Key)

		if r.Chance(1, 2, "no-kid") {
			kid = ""
		}
	case 13:
		how = "values JSON does not have"
		sub := vc["credentialSubject"].(world.J)
		vc["issuer"] = w.evil.DID
		sub["odd"] = []any{math.NaN(), math.Inf(1), []byte("bytes"), nil, map[any]any{1: 2, true: "x"}, uint64(math.MaxUint64), cbor.Tag{Number: 99, Content: "t"}, cbor.Tag{Number: 0, Content: "2024-01-01T00:00:00Z"}}[r.Choose(8, "odd")]

		if r.Chance(1, 3, "odd-place") {
			vc[[]string{"issuer", "type", "@context", "id", "credentialSubject", "validFrom", "issuanceDate", "proof", "evidence", "credentialStatus"}[r.Choose(10, "odd-at")]] = sub["odd"]
		}
	}

	if raw == nil {
		raw = world.EncCBOR(p)
	}

	r.FaultFired("forged-message")

	s := w.sign(w.evil, 0, kid, h, raw)
	s.attack = how
	s.proof = strings.Contains(how, "possession")

	if len(un) > 0 {
		m, _ := coseParts(s.raw)
		m.Headers.RawUnprotected = nil
		m.Headers.Unprotected = un
		s.raw, _ = m.MarshalCBOR()
	}

	w.signed = append(w.signed, s)

	return s
}

// dupMap encodes a CBOR map that may have a key twice.
func dupMap(kv ...any) []byte {
	b := []byte{0xb9, byte(len(kv) / 2 >> 8), byte(len(kv) / 2)}
	for _, x := range kv {
		b = append(b, world.EncCBOR(x)...)
	}

	return b
}

// tamper damages a message in delivery.
func (w *cwtWorld) tamper(s *cwtSigned) ([]byte, string) {
	r := w.r
	m, _ := coseParts(s.raw)

	var pay any

	if m == nil || cbor.Unmarshal(m.Payload, &pay) != nil {
		return s.raw, "nothing"
	}

	j, _ := jsonOf(pay).(world.J)
	o := w.signed[r.Choose(len(w.signed), "other")]
	om, _ := coseParts(o.raw)

	r.FaultFired("message-tampered")

	sig := m.Signature
	how := ""

	switch r.Choose(13, "tamper") {
	case 0:
		how = "payload changed"
		world.Mutate(r, j, nil)
		m.Payload = world.EncCBOR(j)
	case 1:
		how = "issuer changed"
		j["iss"] = w.evil.DID

		if vc, ok := j["vc"].(map[string]any); ok {
			vc["issuer"] = w.evil.DID
		}

		m.Payload = world.EncCBOR(j)
	case 2:
		how = "signature bit flipped"

		if len(sig) > 0 {
			m.Signature = bytes.Clone(sig)
			m.Signature[r.Choose(len(sig), "sig-byte")] ^= byte(1 << r.Choose(8, "sig-bit"))
		}
	case 3:
		how = "signature cut"
		m.Signature = sig[:1+r.Choose(len(sig)-1, "cut")]
	case 4:
		how = "signature extended"
		m.Signature = append(bytes.Clone(sig), 0)
	case 5:
		how = "signature zeroed"
		m.Signature = make([]byte, len(sig))
	case 6:
		how = "signature of another message"
		m.Signature = om.Signature
	case 7:
		how = "payload of another message"
		m.Payload = om.Payload
	case 8:
		how = "header of another message"
		m.Headers = om.Headers
	case 9:
		how = "header changed"
		m.Headers.RawProtected = nil

		switch r.Choose(4, "hdr") {
		case 0:
			m.Headers.Protected[cose.HeaderLabelKeyID] = []byte(w.issuers[r.Choose(2, "h")].KID(0))
		case 1:
			m.Headers.Protected[cose.HeaderLabelAlgorithm] = []cose.Algorithm{cose.AlgorithmES256, cose.AlgorithmEdDSA, cose.AlgorithmES384, cose.AlgorithmPS256, cose.AlgorithmRS256, 5}[r.Choose(6, "alg")]
		case 2:
			delete(m.Headers.Protected, []any{cose.HeaderLabelKeyID, cose.HeaderLabelAlgorithm}[r.Choose(2, "del")])
		case 3:
			m.Headers.Protected["extra"] = "x"
		}
	case 10:
		return s.raw[:r.Choose(len(s.raw), "cut")], "truncated"
	case 11:
		return world.Garble(r, s.raw), "garbled"
	default:
		how = "re-signed by the attacker"
		h := cose.ProtectedHeader{}
		kid := s.kid

		if r.Chance(1, 2, "cose-key") {
			h["COSE_Key"] = coseKey(w.evil.Cur[0].Key)
		}

		x := w.sign(w.evil, 0, kid, h, m.Payload)
		x.attack, x.proof = how, s.proof
		w.signed = append(w.signed, x)

		return x.raw, how
	}

	raw, err := m.MarshalCBOR()
	if err != nil {
		raw = []byte{0xd2, 0x84}
	}

	return raw, how
}

// wrap puts a message in one of the forms a credential may arrive in.
func (w *cwtWorld) wrap(raw []byte) ([]byte, string) {
	x := hex.EncodeToString(raw)

	switch w.r.Choose(5, "wrap") {
	case 1:
		return []byte(x), "hex"
	case 2:
		return world.Enc(x), "quoted hex"
	case 3:
		return world.Enc(world.J{"@context": []any{world.V2}, "type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+cose," + x}), "enveloped"
	case 4:
		// an envelope that claims other things than the message
		return world.Enc(world.J{"@context": []any{world.V2}, "type": []any{"EnvelopedVerifiableCredential", "VerifiableCredential"}, "id": "data:application/vc-ld+cose," + x,
			"issuer": "did:sim:issuer0", "credentialSubject": world.J{"id": "did:sim:evil", "rich": true}}), "enveloped among lies"
	}

	return raw, "bare"
}

func runCWT(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newCWTWorld(r)

	if r.Chance(1, 2, "registry-faults") {
		w.reg.Fail, w.reg.Stale, w.reg.Slow = 80, 250, 60
	}

	w.issue(w.issuers[0])

	tasks := []func(){func() {
		for op := 0; op < 6 && !r.Failed(); op++ {
			a := w.issuers[r.Choose(len(w.issuers), "who")]

			switch r.Choose(5, "issuer-op") {
			case 0, 1:
				a.Rotate()
			case 2:
				w.prove(a)
			default:
				w.issue(a)
			}

			r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
		}
	}}

	for i, n := 0, r.N(1, 3, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			for op := 0; op < 5 && !r.Failed(); op++ {
				w.verifyOne()
				r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
			}
		})
	}

	r.Parallel("actor", tasks...)
}

func (w *cwtWorld) verifyOne() {
	r := w.r

	if len(w.signed) == 0 {
		return
	}

	var (
		raw   []byte
		how   string
		clean bool
	)

	s := w.signed[r.Choose(len(w.signed), "which")]

	switch r.Choose(5, "delivery") {
	case 0, 1:
		raw, how, clean = s.raw, "clean", true
	case 2, 3:
		raw, how = w.tamper(s)
	case 4:
		s = w.forge(w.issuers[r.Choose(len(w.issuers), "victim")])
		raw, how = s.raw, s.attack
	}

	if s.proof {
		w.verifyProof(s, raw, how, clean)
	} else {
		w.verifyCred(s, raw, how, clean && s.attack == "")
	}
}

// author finds who signed a message and whether the registry's answers listed the key for that signer.
func (w *cwtWorld) author(raw []byte, did string, res []world.Resolution) (s *cwtSigned, listed bool) {
	m, pr := coseParts(raw)
	if m == nil {
		return nil, false
	}

	for _, x := range w.signed {
		if !bytes.Equal(x.protect, pr) || !bytes.Equal(x.payload, m.Payload) || did != "" && x.by != did {
			continue
		}

		s = x

		for _, a := range res {
			if a.DID == x.by && a.Version.Lists(x.kid, x.key) {
				return x, true
			}
		}
	}

	return s, false
}

func (w *cwtWorld) verifyCred(s *cwtSigned, raw []byte, how string, clean bool) {
	r := w.r
	data, wrapped := w.wrap(raw)
	opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.loader)}
	late := r.Chance(1, 3, "check-later")

	if late {
		opts = append(opts, verifiable.WithDisabledProofCheck())
	} else if r.Chance(1, 2, "cwt-only") {
		opts = append(opts, verifiable.WithCWTProofChecker(w.checker))
	} else {
		opts = append(opts, verifiable.WithProofChecker(w.checker))
	}

	novalid := !r.Chance(1, 8, "validation")
	if novalid {
		opts = append(opts, verifiable.WithCredDisableValidation())
	}

	from := len(w.reg.Log)

	var (
		cred *verifiable.Credential
		err  error
	)

	if p := core.Do(func() {
		cred, err = verifiable.ParseCredential(bytes.Clone(data), opts...)

		if err == nil && late {
			err = cred.CheckProof(verifiable.WithCWTProofChecker(w.checker), verifiable.WithProofChecker(w.checker))
		}
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "credential verification panicked: %s\ninput (%s, %s): %x", p, how, wrapped, raw)

		return
	}

	res := w.reg.Window(from)

	if err != nil {
		r.Logf("verify %s/%s: refused: %v", how, wrapped, err)

		if clean && s.content["validFrom"] == nil && s.content["issuanceDate"] == nil && !novalid {
			clean = false
		}

		if clean && len(res) == 0 {
			r.Violate("false-reject", "no lookup", "a genuine credential was refused before the registry was asked: %v\n%x", err, data)
		}

		state := "none"
		if len(res) > 0 {
			state = "unresolved"

			if res[0].Version != nil {
				state = fmt.Sprint(alwaysListed(s.by, s.kid, s.key, res))
			}
		}

		if clean && state == "true" {
			r.Violate("false-reject", "genuine", "a genuine credential, its key listed by the registry, was refused: %v\ninput (%s): %x", err, wrapped, data)
		}

		r.Eval("%s %s clean=%v %s refused registry=%s", s.key.Kind, how, clean, wrapped, state)

		return
	}

	r.Logf("verify %s/%s: accepted", how, wrapped)
	r.Eval("%s %s clean=%v %s accepted late=%v", s.key.Kind, how, clean, wrapped, late)

	bad := func(key, f string, a ...any) {
		r.Violate("accepted-unauthentic", key, "a credential was accepted but %s\ninput (%s, %s): %x", fmt.Sprintf(f, a...), how, wrapped, data)
	}

	if cred.Contents().Issuer == nil || cred.CWTEnvelope == nil {
		bad("no-envelope", "it carries no COSE message and no signature of its issuer exists")

		return
	}

	issuer := cred.Contents().Issuer.ID

	by, listed := w.author(cred.CWTEnvelope.Sign1MessageRaw, issuer, res)

	switch {
	case issuer == "":
		// names nobody: any signer will do, as nothing is claimed about it
	case by == nil:
		bad("not-signed", "its stated issuer %q never signed it", issuer)

		return
	case !listed:
		bad("key-not-listed", "the registry's answers never listed its key %q for a purpose other than key agreement", by.kid)

		return
	}

	if by != nil && by.content != nil {
		w.sameContent(bad, cred, by)
	}

	w.stable(cred, data, opts, how)
}

// alwaysListed reports whether all the registry's answers listed the key (an envelope is checked inside and outside).
func alwaysListed(did, kid string, k *world.Key, res []world.Resolution) bool {
	for _, a := range res {
		if a.DID != did || !a.Version.Lists(kid, k) {
			return false
		}
	}

	return true
}

func (w *cwtWorld) sameContent(bad func(key, f string, a ...any), cred *verifiable.Credential, by *cwtSigned) {
	got := jsonOf(cred.ToRawJSON()).(world.J)
	if !world.Same(got, by.content) {
		bad("content", "its content differs from what was signed:\ngot  %s\nwant %s", world.Enc(got), world.Enc(by.content))
	}

	c := cred.Contents()
	if c.ID != by.content["id"] {
		bad("content-id", "its id reads %q, signed %v", c.ID, by.content["id"])
	}

	if len(c.Subject) != 1 || c.Subject[0].ID != "did:sim:holder" {
		bad("content-subject", "its subject reads %v", c.Subject)
	}

	for f, g := range map[string]string{"expirationDate": tw(c.Expired), "validUntil": tw(c.Expired), "issuanceDate": tw(c.Issued), "validFrom": tw(c.Issued)} {
		if s, ok := by.content[f].(string); ok && s != g {
			bad("content-date", "its %s reads %q, signed %q", f, g, s)
		}
	}
}

// stable checks that an accepted credential reads the same when it is read again and when it is passed on.
func (w *cwtWorld) stable(cred *verifiable.Credential, data []byte, opts []verifiable.CredentialOpt, how string) {
	r := w.r
	opts = append(opts, verifiable.WithDisabledProofCheck())
	was := fmt.Sprintf("%v", jsonOf(cred.ToRawJSON()))

	for i := 0; i < 2; i++ {
		r.Reorder()

		again, err := verifiable.ParseCredential(bytes.Clone(data), opts...)
		if err != nil {
			r.Violate("unstable", "refused", "an accepted credential (%s) was refused when it was read again: %v\n%x", how, err, data)

			return
		}

		if x := fmt.Sprintf("%v", jsonOf(again.ToRawJSON())); x != was {
			r.Violate("unstable", "read again", "an accepted credential (%s) reads differently when it is read again:\n%s\n%s\n%x", how, was, x, data)

			return
		}
	}

	var (
		u   any
		err error
	)

	if p := core.Do(func() { u, err = cred.ToUniversalForm() }); p != "" || err != nil {
		r.Violate("unstable", "universal form", "an accepted credential (%s) cannot be passed on: %s %v", how, p, err)

		return
	}

	again, err := verifiable.ParseCredential(world.Enc(u), opts...)
	if err != nil {
		r.Violate("unstable", "universal form refused", "an accepted credential (%s) was refused in its universal form: %v\n%s", how, err, world.Enc(u))

		return
	}

	if again.CWTEnvelope == nil || !bytes.Equal(again.CWTEnvelope.Sign1MessageRaw, cred.CWTEnvelope.Sign1MessageRaw) {
		r.Violate("unstable", "passed on", "an accepted credential (%s) is another message in its universal form: %s", how, world.Enc(u))
	}

	if x := fmt.Sprintf("%v", jsonOf(again.ToRawJSON())); x != was {
		r.Violate("unstable", "passed on", "an accepted credential (%s) reads differently in its universal form:\n%s\n%s", how, was, x)
	}
}

// verifyProof checks a key possession proof.
func (w *cwtWorld) verifyProof(s *cwtSigned, raw []byte, how string, clean bool) {
	r := w.r
	checkIss := r.Chance(1, 2, "check-issuer")
	from := len(w.reg.Log)

	var (
		m   *cose.Sign1Message
		pay []byte
		err error
	)

	if p := core.Do(func() { m, pay, err = cwt.ParseAndCheckProof(bytes.Clone(raw), w.checker, checkIss) }); p != "" {
		r.Violate("panic", core.PanicSite(p), "checking a CWT proof panicked: %s\ninput (%s): %x", p, how, raw)

		return
	}

	res := w.reg.Window(from)

	var claims map[any]any

	if cm, _ := coseParts(raw); cm != nil {
		_ = cbor.Unmarshal(cm.Payload, &claims)
	}

	iss, _ := claims[uint64(1)].(string)
	signer := iss

	if !checkIss {
		signer = strings.Split(s.kid, "#")[0]
	}

	if err != nil {
		r.Logf("proof %s: refused: %v", how, err)
		r.Eval("%s proof %s clean=%v refused lookups=%d", s.key.Kind, how, clean, len(res))

		switch {
		case !clean || s.attack != "":
		case s.kid == "" && !checkIss:
			r.Violate("false-reject", "proof by key", "a genuine proof by a key it carries was refused: %v\n%x", err, raw)
		case s.kid == "" || checkIss && iss == "":
			// no issuer can be checked
		case len(res) == 0:
			r.Violate("false-reject", "no lookup", "a genuine proof was refused before the registry was asked: %v\n%x", err, raw)
		case res[0].DID == s.by && res[0].Version.Lists(s.kid, s.key):
			r.Violate("false-reject", "proof", "a genuine proof, its key listed by the registry, was refused: %v\n%x", err, raw)
		}

		return
	}

	r.Logf("proof %s: accepted", how)
	r.Eval("%s proof %s clean=%v accepted iss=%v kid=%v", s.key.Kind, how, clean, checkIss, s.kid != "")

	cm, pr := coseParts(raw)

	switch {
	case cm == nil || m == nil || !bytes.Equal(cm.Payload, pay) || !bytes.Equal(m.Payload, pay):
		r.Violate("accepted-unauthentic", "proof payload", "the accepted proof's payload differs from the message's\ninput (%s): %x", how, raw)

		return
	case checkIss && iss == "":
		r.Violate("accepted-unauthentic", "proof issuer", "a proof without an issuer was accepted though the issuer was to be checked\ninput (%s): %x", how, raw)

		return
	}

	kb, _ := cm.Headers.Protected[cose.HeaderLabelKeyID].([]byte)

	if len(kb) == 0 {
		if checkIss {
			r.Violate("accepted-unauthentic", "proof issuer", "a proof by a bare key was accepted as one of issuer %q\ninput (%s): %x", iss, how, raw)

			return
		}

		km, _ := cm.Headers.Protected["COSE_Key"].(string)

		for _, x := range w.signed {
			if bytes.Equal(x.protect, pr) && bytes.Equal(x.payload, cm.Payload) && coseKey(x.key) == km {
				return
			}
		}

		r.Violate("accepted-unauthentic", "proof key", "a proof was accepted that the key it carries never signed\ninput (%s): %x", how, raw)

		return
	}

	if !checkIss {
		signer = strings.Split(string(kb), "#")[0]
	}

	switch by, listed := w.author(raw, signer, res); {
	case by == nil:
		r.Violate("accepted-unauthentic", "proof signer", "a proof was accepted that %q never signed\ninput (%s): %x", signer, how, raw)
	case !listed:
		r.Violate("accepted-unauthentic", "proof key-not-listed", "a proof was accepted though the registry's answers never listed its key %q\ninput (%s): %x", by.kid, how, raw)
	}
}
