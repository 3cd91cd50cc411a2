package props

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	kmsapi "github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/simrt"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C13", Title: "Issuing is all or nothing and puts exactly the asked proof on the document", Run: runIssue,
		Rule:    "one issuing call over a credential, presentation or DID document while the signing service, the registry and the context server fail or stall, judged against the record of what was signed with which key and the document before the call",
		Measure: "object kind x issuing form x proofs already there x options asked for x collaborator that failed x outcome",
		Real:    []string{"verifiable (linked data, data integrity, JWT, COSE and SD-JWT issuing; DID document proofs)", "dataintegrity signer and suites", "sdjwt issuer and holder", "proof creators", "proof checkers"},
		Stub:    []string{"signing service", "DID registry", "JSON-LD context server", "clock"},
	})
}

// kms is a signing service holding one key; it remembers what it signed.
type kms struct {
	w    *issWorld
	k    *world.Key
	log  []sigAct
	down map[int]int // failures so far, by task
}

type sigAct struct{ data, sig []byte }

var errKMS = errors.New("sim: signing service unavailable")

func (s *kms) Sign(data []byte) ([]byte, error) {
	simrt.Step()

	r := s.w.r

	if s.w.rate > 0 {
		if r.Fault("signer-slow", s.w.rate, 1000) {
			r.Sleep(time.Duration(r.N(1, 30, "slow")) * time.Second)
		}

		if r.Fault("signer-unavailable", s.w.rate, 1000) {
			s.down[simrt.TaskID()]++

			return nil, errKMS
		}

		if r.Fault("signer-answer-lost", s.w.rate/2, 1000) { // it signed, and the answer came with an error
			s.down[simrt.TaskID()]++

			sig, _ := s.k.Sign(data)

			return sig, errKMS
		}
	}

	sig, err := s.k.Sign(data)
	s.log = append(s.log, sigAct{bytes.Clone(data), bytes.Clone(sig)})

	return sig, err
}

func (s *kms) Headers() jose.Headers { return jose.Headers{"alg": s.k.Alg} }

// made reports whether the service gave sig for data since its n-th signature.
func (s *kms) made(n int, data, sig []byte) bool {
	for _, a := range s.log[n:] {
		if bytes.Equal(a.sig, sig) && (data == nil || bytes.Equal(a.data, data)) {
			return true
		}
	}

	return false
}

type issWorld struct {
	r      *core.Run
	reg    *world.Registry
	a      *world.Actor
	kms    []*kms // per entry of a
	rate   int
	getter map[int]int // failures of the key lookup, by task
	seq    int

	loader  *world.Loader // the one signers use
	ld      *ldWorld      // for its option generator
	di      *dataintegrity.Signer
	checker verifiable.CombinedProofChecker
	divf    *dataintegrity.Verifier
}

func newIssWorld(r *core.Run) *issWorld {
	w := &issWorld{r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r), getter: map[int]int{}}

	var ks []world.Kind
	for i, n := 0, r.N(1, 3, "keys"); i < n; i++ {
		ks = append(ks, []world.Kind{world.Ed, world.P256, world.P384, world.K256, world.Ed, world.RSAPS, world.P521}[r.Choose(7, "kind")])
	}

	w.a = world.NewActor(r, w.reg, "did:sim:issuer", ks...)

	for i := range w.a.Cur {
		if r.Chance(1, 3, "rels") {
			w.a.Cur[i].Rels = world.AllRels
		}
	}

	w.a.Publish()

	for _, e := range w.a.Cur {
		w.kms = append(w.kms, &kms{w: w, k: e.Key, down: map[int]int{}})
	}

	w.ld = &ldWorld{r: r, reg: w.reg}

	get := func(pub *jwk.JWK) (*kms, error) {
		if w.rate > 0 && r.Fault("key-lookup-failed", w.rate/2, 1000) {
			w.getter[simrt.TaskID()]++

			return nil, errKMS
		}

		for _, s := range w.kms {
			if bytes.Equal(world.Enc(s.k.JWK), world.Enc(pub)) || sameKey(s.k.JWK, pub) {
				return s, nil
			}
		}

		return nil, errors.New("sim: no such key")
	}

	var err error

	w.di, err = dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: w.reg},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: w.loader,
			SignerGetter: func(p *jwk.JWK) (ecdsa2019.Signer, error) {
				s, err := get(p)
				if err != nil {
					return nil, err
				}

				return s, nil
			}}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: w.loader,
			SignerGetter: func(p *jwk.JWK) (eddsa2022.Signer, error) {
				s, err := get(p)
				if err != nil {
					return nil, err
				}

				return s, nil
			}}))
	if err != nil {
		panic(err)
	}

	quiet := calm{w.reg}
	w.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(quiet))

	w.divf, err = dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: quiet},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: world.NewLoader(r)}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: world.NewLoader(r)}))
	if err != nil {
		panic(err)
	}

	return w
}

var _ interface {
	Resolve(string, ...vdrapi.DIDMethodOption) (*did.DocResolution, error)
} = calm{}

func sameKey(a, b *jwk.JWK) bool {
	x, e1 := a.MarshalJSON()
	y, e2 := b.MarshalJSON()

	if e1 != nil || e2 != nil {
		return false
	}

	p, q := world.Dec(x), world.Dec(y)

	return p["x"] == q["x"] && p["n"] == q["n"] && p["crv"] == q["crv"]
}

// issObj is something proofs can be put on.
type issObj struct {
	kind  string
	vc    *verifiable.Credential
	vp    *verifiable.Presentation
	doc   *did.Doc
	clean bool // its content is understood: tokens made of it can be judged
}

// text is everything the object says, proofs included.
func (o *issObj) text() (world.J, error) {
	var (
		b   []byte
		err error
	)

	switch o.kind {
	case "vc":
		b, err = o.vc.MarshalJSON()
	case "vp":
		b, err = o.vp.MarshalJSON()
	default:
		b, err = o.doc.JSONBytes()
	}

	if err != nil {
		return nil, err
	}

	return world.Dec(b), nil
}

// state is text plus what is kept beside it.
func (o *issObj) state() string {
	t, err := o.text()
	s := fmt.Sprintf("%s %v", world.Enc(t), err)

	switch o.kind {
	case "vc":
		s += fmt.Sprintf(" proofs %s jwt %v cwt %v contents %s", world.Enc(o.vc.Proofs()), o.vc.JWTEnvelope != nil, o.vc.CWTEnvelope != nil, world.Dump(o.vc.Contents()))
	case "vp":
		s += fmt.Sprintf(" proofs %s jwt %q cwt %v fields %s", world.Enc(o.vp.Proofs), o.vp.JWT, o.vp.CWT != nil, world.Enc(o.vp.CustomFields))
	}

	return s
}

func (w *issWorld) makeObj() *issObj {
	r := w.r
	w.seq++
	seq := w.seq

	switch r.Choose(5, "object") {
	case 0, 1, 2:
		v2 := r.Chance(1, 2, "v2")
		doc := world.GenVC(r, world.VCSpec{Issuer: w.a.DID, Subject: "did:sim:holder", V2: v2, Flat: !r.Chance(1, 6, "any-subject"), Seq: seq, NoNumbers: true})
		c := doc["@context"].([]any)
		doc["@context"] = append(c, DIv2)

		vc, err := verifiable.ParseCredential(world.Enc(doc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(world.NewLoader(r)), verifiable.WithCredDisableValidation())
		if err != nil {
			r.Violate("cannot-issue", "parse", "a valid credential was refused: %v\n%s", err, world.Enc(doc))

			return nil
		}

		_, flat := doc["credentialSubject"].(world.J)
		if s, ok := doc["credentialSubject"].(map[string]any); ok {
			_, flat = s["id"]
		}

		return &issObj{kind: "vc", vc: vc, clean: flat}
	case 3:
		base := []string{world.V1, world.V2}[r.Choose(2, "v2")]

		vp, err := verifiable.NewPresentation(verifiable.WithBaseContext(base))
		if err != nil {
			r.Violate("cannot-issue", "new", "%v", err)

			return nil
		}

		vp.Context = append(vp.Context, world.Sim, DIv2)
		vp.ID = fmt.Sprintf("urn:uuid:vp-%d", seq)
		vp.Holder = w.a.DID

		if r.Chance(1, 2, "type") {
			vp.Type = append(vp.Type, "SimPresentation")
		}

		if r.Chance(1, 2, "custom") {
			vp.CustomFields = verifiable.CustomFields{"note": fmt.Sprintf("n-%d", seq), "nested": map[string]any{"a": []any{"x", true}}}
		}

		return &issObj{kind: "vp", vp: vp, clean: true}
	}

	// the actor's own DID document
	d := world.J{"@context": []any{"https://www.w3.org/ns/did/v1", "https://w3id.org/security/suites/jws-2020/v1", DIv2, world.Sim}, "id": w.a.DID,
		"service": []any{world.J{"id": w.a.DID + "#hub", "type": "LinkedDomains", "serviceEndpoint": fmt.Sprintf("https://issuer.example/%d", seq)}}}

	var vms, auth, assert []any

	for i, e := range w.a.Cur {
		vms = append(vms, world.J{"id": w.a.KID(i), "type": "JsonWebKey2020", "controller": w.a.DID, "publicKeyJwk": world.Dec(world.Enc(e.Key.JWK))})
		auth = append(auth, w.a.KID(i))
		assert = append(assert, w.a.KID(i))
	}

	d["verificationMethod"], d["authentication"], d["assertionMethod"] = vms, auth, assert

	doc, err := did.ParseDocument(world.Enc(d))
	if err != nil {
		panic(err)
	}

	return &issObj{kind: "did", doc: doc, clean: true}
}

var issForms = map[string][]string{
	"vc":  {"ld", "ld", "di", "di", "jwt", "cose", "sdjwt", "present"},
	"vp":  {"ld", "ld", "di", "di", "jwt", "cose"},
	"did": {"ld", "di"},
}

func runIssue(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 4, 16, 64}[r.Choose(4, "preempt")]})

	w := newIssWorld(r)

	if r.Chance(3, 4, "faults") {
		w.rate = 150
	}

	if r.Chance(1, 2, "world-faults") {
		w.reg.Fail, w.reg.Slow = 120, 60
		w.loader.Fail, w.loader.Slow = 60, 20
	}

	var tasks []func()

	for i, n := 0, r.N(1, 3, "issuers"); i < n; i++ {
		tasks = append(tasks, func() {
			o := w.makeObj()

			for op := 0; op < 5 && o != nil && !r.Failed(); op++ {
				next := w.issue(o)
				if next != nil {
					o = next
				}
			}
		})
	}

	r.Parallel("issuer", tasks...)
}

func (w *issWorld) issue(o *issObj) *issObj {
	r := w.r
	forms := issForms[o.kind]
	form := forms[r.Choose(len(forms), "form")]
	i := r.Choose(len(w.a.Cur), "key")
	k := w.kms[i]

	if !o.clean && form != "ld" && form != "di" {
		form = "ld"
	}

	if form == "di" && k.k.Kind != world.Ed && k.k.Kind != world.P256 && k.k.Kind != world.P384 || form == "cose" && (k.k.Kind == world.K256 || k.k.Kind == world.RSAPS || k.k.Kind == world.P521) {
		form = "ld"
	}

	switch form {
	case "ld", "di":
		return w.addProof(o, form, i)
	}

	w.makeToken(o, form, i)

	return nil
}

func sameProof(a, b any) bool { return world.Same(anyOf(a), anyOf(b)) }

func anyOf(v any) any { return world.Dec([]byte(`{"v":` + string(world.Enc(v)) + `}`))["v"] }

// addProof puts an embedded proof on o; it returns the object that carries it.
func (w *issWorld) addProof(o *issObj, form string, i int) *issObj {
	r := w.r
	k := w.kms[i]
	before, err := o.text()

	if err != nil {
		r.Violate("cannot-issue", "marshal", "%v", err)

		return nil
	}

	state := o.state()
	had, _ := proofsOf(before)
	from := len(w.reg.Log)
	me := simrt.TaskID()
	n0, down0, ctx0, get0 := len(k.log), k.down[me], w.loader.Failed, w.getter[me]
	t0 := time.Now()

	var (
		want   world.J
		asked  string
		listed = true
		call   func() error
		out    = o
	)

	now := func() time.Time { return time.Now() }
	created, expires := time.Time{}, time.Time{}
	loader := processor.WithDocumentLoader(w.loader)

	if form == "ld" {
		c := w.ld.proofContext(w.a, i, nil)
		c.ProofCreator = world.CreatorOf(k)
		want = world.J{"type": c.SignatureType, "proofPurpose": c.Purpose, "verificationMethod": c.VerificationMethod}

		if c.Purpose == "" {
			want["proofPurpose"] = "assertionMethod"
		}

		if c.Challenge != "" {
			want["challenge"] = c.Challenge
		}

		if c.Domain != "" {
			want["domain"] = c.Domain
		}

		if o.kind == "did" {
			c.CapabilityChain = nil // a DID document has no place for it
		}

		if len(c.CapabilityChain) > 0 {
			want["capabilityChain"] = c.CapabilityChain
		}

		if c.Created != nil {
			created = *c.Created
		}

		asked = fmt.Sprintf("%s/%d/%s", c.SignatureType, c.SignatureRepresentation, want["proofPurpose"])

		call = func() (err error) {
			switch o.kind {
			case "vc":
				return o.vc.AddLinkedDataProof(c, loader)
			case "vp":
				return o.vp.AddLinkedDataProof(c, loader)
			}

			d, err := verifiable.AddDIDLinkedDataProof(o.doc, c, loader)
			if err == nil {
				out = &issObj{kind: "did", doc: d, clean: o.clean}
			} else if d != nil {
				r.Violate("error-with-result", "did-ld", "adding a proof failed (%v) but returned a document", err)
			}

			return err
		}
	} else {
		su := diSuites(k.k.Kind)
		c := &verifiable.DataIntegrityProofContext{SigningKeyID: w.a.KID(i), CryptoSuite: su[r.Choose(2, "suite")]}

		if r.Chance(2, 3, "purpose") {
			c.ProofPurpose = diPurposes[r.Choose(len(diPurposes), "purpose")]
		}

		want = world.J{"type": "DataIntegrityProof", "cryptosuite": c.CryptoSuite, "proofPurpose": c.ProofPurpose, "verificationMethod": c.SigningKeyID}
		if c.ProofPurpose == "" {
			want["proofPurpose"] = "assertionMethod"
		}

		if r.Chance(1, 2, "created") {
			created = ldStamps[r.Choose(len(ldStamps), "stamp")]
			c.Created = &created
		}

		if r.Chance(1, 3, "expires") {
			expires = now().Add([]time.Duration{time.Hour, 100 * time.Hour, 24 * 400 * time.Hour}[r.Choose(3, "until")])
			c.Expires = &expires
		}

		if r.Chance(1, 3, "challenge") {
			c.Challenge = fmt.Sprintf("ch-%d", r.Choose(3, "ch"))
			want["challenge"] = c.Challenge
		}

		if r.Chance(1, 3, "domain") {
			c.Domain = []string{"example.com", "https://rp.example"}[r.Choose(2, "dom")]
			want["domain"] = c.Domain
		}

		listed, _ = diLists(w.reg.Latest(w.a.DID), c.SigningKeyID, str(want["proofPurpose"]), k.k)
		asked = fmt.Sprintf("%s/%s", c.CryptoSuite, want["proofPurpose"])

		call = func() (err error) {
			switch o.kind {
			case "vc":
				return o.vc.AddDataIntegrityProof(c, w.di)
			case "vp":
				return o.vp.AddDataIntegrityProof(c, w.di)
			}

			d, err := verifiable.AddDIDDataIntegrityProof(o.doc, c, w.di)
			if err == nil {
				out = &issObj{kind: "did", doc: d, clean: o.clean}
			} else if d != nil {
				r.Violate("error-with-result", "did-di", "adding a proof failed (%v) but returned a document", err)
			}

			return err
		}
	}

	var cerr error

	if p := core.Do(func() { cerr = call() }); p != "" {
		r.Violate("panic", core.PanicSite(p), "issuing panicked: %s\n%s", p, world.Enc(before))

		return nil
	}

	t1 := time.Now()
	refused := false

	for _, x := range w.reg.Window(from) {
		refused = refused || x.Version == nil
	}

	calm := k.down[me] == down0 && w.loader.Failed == ctx0 && w.getter[me] == get0 && !refused
	outcome := "issued"

	if cerr != nil {
		outcome = "failed"
	}

	r.Eval("%s %s had=%d %s listed=%v ch=%v dom=%v created=%v expires=%v calm=%v %s", o.kind, form, len(had), asked, listed, want["challenge"] != nil, want["domain"] != nil,
		!created.IsZero(), !expires.IsZero(), calm, outcome)
	r.Logf("%s %s by key %d: %s (%v)", o.kind, asked, i, outcome, cerr)

	if (cerr != nil || o.kind == "did") && o.state() != state {
		r.Violate("failed-issue-changed", o.kind+" "+form, "issuing ended with %v and changed the %s:\nbefore %s\nafter  %s", cerr, o.kind, state, o.state())

		return nil
	}

	if cerr != nil {
		if calm && listed {
			r.Violate("cannot-issue", o.kind+" "+form, "a proof (%s) could not be put on a %s though nothing failed: %v\n%s", asked, o.kind, cerr, world.Enc(before))
		}

		return nil
	}

	after, err := out.text()
	if err != nil {
		r.Violate("cannot-issue", "marshal", "%v", err)

		return nil
	}

	bad := func(key, f string, a ...any) *issObj {
		r.Violate("wrong-proof", o.kind+" "+form+" "+key, "%s\nasked %s created %v expires %v\nbefore %s\nafter  %s", fmt.Sprintf(f, a...), world.Enc(want), created, expires, world.Enc(before), world.Enc(after))

		return nil
	}

	if !world.Same(noProof(before), noProof(after)) {
		return bad("content", "issuing changed the document")
	}

	ps, _ := proofsOf(after)
	if len(ps) != len(had)+1 {
		return bad("count", "the document carried %d proofs and now carries %d", len(had), len(ps))
	}

	for j := range had {
		if !sameProof(had[j], ps[j]) {
			return bad("earlier-proof", "proof %d was changed by adding another", j)
		}
	}

	p := ps[len(ps)-1]

	for _, f := range []string{"type", "cryptosuite", "proofPurpose", "verificationMethod", "challenge", "domain", "capabilityChain"} {
		if p[f] == "" { // a DID document spells out what is not there
			delete(p, f)
		}

		if !sameProof(p[f], want[f]) {
			return bad(f, "the new proof says %s = %v", f, p[f])
		}
	}

	at, ok := parseSec(str(p["created"]))
	switch {
	case !ok:
		return bad("created", "the new proof's time is %v", p["created"])
	case created.IsZero() && (at.Before(t0.Truncate(time.Second)) || at.After(t1)):
		return bad("created", "the new proof says it was made %v, it was made between %v and %v", at, t0, t1)
	case !created.IsZero() && !at.Equal(created.Truncate(time.Second)):
		return bad("created", "the new proof says it was made %v", at)
	}

	if form == "di" {
		if until, ok := parseSec(str(p["expires"])); !ok || !until.Equal(expires.Truncate(time.Second)) {
			return bad("expires", "the new proof says it expires %v", p["expires"])
		}
	}

	if j := str(p["jws"]); j != "" {
		sig, err := base64.RawURLEncoding.DecodeString(j[strings.LastIndex(j, ".")+1:])
		if err != nil || !k.made(n0, nil, sig) {
			return bad("signature", "the new proof's signature is none the signing service gave in this call")
		}
	}

	// the new proof on its own, seen by a verifier with a working world
	single := world.CloneJ(after)
	single["proof"] = p

	if verr := w.verify(o.kind, single, str(p["proofPurpose"]), str(p["domain"]), str(p["challenge"])); verr != nil && listed {
		return bad("unverifiable", "the new proof does not verify: %v", verr)
	}

	if r.Chance(1, 3, "tamper") {
		w.tampered(o.kind, single)
	}

	return out
}

// verify checks the proofs of a document with a world that works.
func (w *issWorld) verify(kind string, d world.J, purpose, domain, challenge string) error {
	l := world.NewLoader(w.r)

	switch kind {
	case "vc":
		_, err := verifiable.ParseCredential(world.Enc(d), verifiable.WithProofChecker(w.checker), verifiable.WithJSONLDDocumentLoader(l), verifiable.WithCredDisableValidation(),
			verifiable.WithDataIntegrityVerifier(w.divf), verifiable.WithExpectedDataIntegrityFields(purpose, domain, challenge))

		return err
	case "vp":
		_, err := verifiable.ParsePresentation(world.Enc(d), verifiable.WithPresProofChecker(w.checker), verifiable.WithPresJSONLDDocumentLoader(l), verifiable.WithDisabledJSONLDChecks(),
			verifiable.WithPresDataIntegrityVerifier(w.divf), verifiable.WithPresExpectedDataIntegrityFields(purpose, domain, challenge))

		return err
	}

	doc, err := did.ParseDocument(world.Enc(d))
	if err != nil {
		return fmt.Errorf("not a DID document any more: %w", err)
	}

	return verifiable.VerifyDIDProof(doc, verifiable.WithDIDProofChecker(w.checker), verifiable.WithDIDJSONLDDocumentLoader(l), verifiable.WithDIDDataIntegrityVerifier(w.divf),
		verifiable.WithDIDExpectedDataIntegrityFields(purpose, domain, challenge))
}

// tampered changes what was signed: the proof must no longer verify.
func (w *issWorld) tampered(kind string, good world.J) {
	r := w.r
	d := world.CloneJ(good)
	p := d["proof"].(world.J)
	before, _ := world.Canon(noProof(d))
	what := ""
	purpose, domain, challenge := str(p["proofPurpose"]), str(p["domain"]), str(p["challenge"])

	switch r.Choose(5, "change") {
	case 0:
		what = "document: " + world.Mutate(r, d, func(p string) bool { return strings.HasPrefix(p, "/proof") || strings.HasPrefix(p, "/@context") })

		seen := d
		if kind == "did" { // what a DID document has no place for is not part of it
			doc, err := did.ParseDocument(world.Enc(d))
			if err != nil {
				return
			}

			b, _ := doc.JSONBytes()
			seen = world.Dec(b)
		}

		after, err := world.Canon(noProof(seen))
		if err == nil && after == before {
			return // it still says the same
		}
	case 1:
		what = "proof challenge"
		p["challenge"] = "ch-9"
		challenge = "ch-9"
	case 2:
		what = "proof created"
		p["created"] = "2024-02-01T10:20:31Z"
	case 3:
		what = "proof purpose"
		if purpose == "capabilityDelegation" {
			return
		}

		p["proofPurpose"], purpose = "capabilityDelegation", "capabilityDelegation"
	case 4:
		what = "proof removed"
		delete(d, "proof")
	}

	r.FaultFired("message-tampered")

	if err := w.verify(kind, d, purpose, domain, challenge); err == nil {
		r.Violate("tampering-unnoticed", kind+" "+strings.SplitN(what, ":", 2)[0], "a proof verifies although the %s was changed after signing (%s)\nsigned %s\nnow    %s", kind, what, world.Enc(good), world.Enc(d))
	}
}

// makeToken makes a token of o.
func (w *issWorld) makeToken(o *issObj, form string, i int) {
	r := w.r
	k := w.kms[i]
	kid := w.a.KID(i)
	src, err := o.text()

	if err != nil {
		r.Violate("cannot-issue", "marshal", "%v", err)

		return
	}

	state := o.state()
	me := simrt.TaskID()
	n0, down0 := len(k.log), k.down[me]

	var (
		tok  string
		raw  []byte
		aud  []string
		cerr error
		call func()
		hash bool
	)

	min := r.Chance(1, 3, "minimize")
	creator := world.CreatorOf(k)
	note := ""
	jwsAlg, cwsAlg := world.JWSAlg(k.k.Kind), coseAlg(k.k.Kind)

	if r.Chance(1, 2, "alg-by-key-type") { // as an issuer does that knows its key by the type the KMS gives it
		if t := kmsTypes(k.k); len(t) > 0 {
			kt := t[r.Choose(len(t), "key-type")]

			var e1, e2 error

			if jwsAlg, e1 = verifiable.KeyTypeToJWSAlgo(kt); e1 != nil {
				r.Violate("cannot-issue", "key type "+string(kt), "a key of the type %s has no JWT algorithm: %v", kt, e1)

				return
			}

			if k.k.Kind != world.K256 && k.k.Kind != world.P521 {
				if cwsAlg, e2 = verifiable.KeyTypeToCWSAlgo(kt); e2 != nil {
					r.Violate("cannot-issue", "key type "+string(kt), "a key of the type %s has no COSE algorithm: %v", kt, e2)

					return
				}
			}
		}
	}

	if r.Chance(1, 2, "aud") {
		aud = []string{"did:sim:verifier", "did:sim:other"}[:1+r.Choose(2, "auds")]
	}

	switch {
	case o.kind == "vc" && form == "jwt":
		call = func() {
			var c *verifiable.Credential
			if c, cerr = o.vc.CreateSignedJWTVC(min, jwsAlg, creator, kid); cerr == nil {
				tok, cerr = c.ToJWTString()
			} else if c != nil {
				note = "a credential"
			}
		}
	case o.kind == "vc" && form == "cose":
		call = func() {
			var c *verifiable.Credential
			if c, cerr = o.vc.CreateSignedCOSEVC(cwsAlg, creator, kid); cerr == nil {
				raw = c.CWTEnvelope.Sign1MessageRaw
			} else if c != nil {
				note = "a credential"
			}
		}
	case o.kind == "vc": // sdjwt, present
		v := []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5}[r.Choose(2, "version")]
		hash = true

		if form == "sdjwt" {
			call = func() {
				tok, cerr = o.vc.MakeSDJWT(k, kid, verifiable.MakeSDJWTWithVersion(v))
			}
		} else {
			call = func() {
				tok, cerr = o.vc.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DisclosureSigner(k, kid), verifiable.MarshalWithSDJWTVersion(v))
			}
		}
	case form == "jwt":
		call = func() {
			var p *verifiable.Presentation
			if p, cerr = o.vp.CreateJWTVP(aud, jwsAlg, creator, kid, min); cerr == nil {
				tok = p.JWT
			} else if p != nil {
				note = "a presentation"
			}
		}
	default:
		call = func() {
			var p *verifiable.Presentation
			if p, cerr = o.vp.CreateCWTVP(aud, cwsAlg, creator, kid, min); cerr == nil {
				raw = p.CWT.Raw
			} else if p != nil {
				note = "a presentation"
			}
		}
	}

	if p := core.Do(call); p != "" {
		r.Violate("panic", core.PanicSite(p), "issuing panicked: %s\n%s", p, world.Enc(src))

		return
	}

	outcome := "issued"
	if cerr != nil {
		outcome = "failed"
	}

	had, _ := proofsOf(src)
	r.Eval("%s %s %s had=%d min=%v aud=%d calm=%v %s", o.kind, form, k.k.Kind, len(had), min, len(aud), k.down[me] == down0, outcome)
	r.Logf("%s %s by key %d: %s (%v)", o.kind, form, i, outcome, cerr)

	bad := func(key, f string, a ...any) {
		r.Violate("wrong-token", o.kind+" "+form+" "+key, "%s\nsource %s\ntoken %s%x", fmt.Sprintf(f, a...), world.Enc(src), tok, raw)
	}

	if s := o.state(); s != state {
		r.Violate("source-changed", o.kind+" "+form, "making a token (%v) changed the %s it was made of:\nbefore %s\nafter  %s", cerr, o.kind, state, s)

		return
	}

	if cerr != nil {
		if note != "" || tok != "" || raw != nil {
			bad("error-with-result", "issuing failed (%v) but returned %s", cerr, note)
		}

		if k.down[me] == down0 {
			r.Violate("cannot-issue", o.kind+" "+form, "no token could be made of a %s though nothing failed: %v\n%s", o.kind, cerr, world.Enc(src))
		}

		return
	}

	// the token is signed with the asked key over exactly its bytes, and says who signed it
	jwt := tok
	var discs []string

	if hash {
		jwt, discs, _ = splitSD(tok)
	}

	var payload world.J

	if raw != nil {
		m, _ := coseParts(raw)
		if m == nil {
			bad("cose", "no COSE message")

			return
		}

		if !k.made(n0, nil, m.Signature) {
			bad("signature", "the signature is none the signing service gave in this call")

			return
		}

		if id, _ := m.Headers.Protected[int64(4)].([]byte); string(id) != kid {
			if id2, _ := m.Headers.Protected[int64(4)].(string); id2 != kid {
				bad("kid", "the key id is %v", m.Headers.Protected[int64(4)])

				return
			}
		}
	} else {
		h, p, sig, ok := splitJWT(jwt)
		if !ok {
			bad("jwt", "not a JWT")

			return
		}

		if at := strings.LastIndex(jwt, "."); !k.made(n0, []byte(jwt[:at]), sig) {
			bad("signature", "the signature is none the signing service gave for these bytes in this call")

			return
		}

		if h["kid"] != kid || h["alg"] != k.k.Alg {
			bad("header", "the header is %s", world.Enc(h))

			return
		}

		payload = world.Dec(p)
	}

	w.judgeToken(o, form, src, tok, jwt, discs, raw, payload, aud, bad)

	if r.Failed() || form != "sdjwt" {
		return
	}

	w.bind(tok)
}

func (w *issWorld) judgeToken(o *issObj, form string, src world.J, tok, jwt string, discs []string, raw []byte, payload world.J, aud []string, bad func(key, f string, a ...any)) {
	l := world.NewLoader(w.r)

	if payload != nil && o.kind == "vp" {
		var got []string

		for _, x := range list(payload["aud"]) {
			got = append(got, str(x))
		}

		if strings.Join(got, " ") != strings.Join(aud, " ") {
			bad("aud", "asked for audience %v, the token is for %v", aud, got)

			return
		}

		if payload["iss"] != w.a.DID {
			bad("iss", "the token's issuer is %v", payload["iss"])

			return
		}
	}

	data := []byte(tok)
	if raw != nil {
		data = raw
	}

	// what the token says to a verifier with a working world. Embedded proofs the source carried are not checked here.
	if o.kind == "vp" {
		vp, err := verifiable.ParsePresentation(data, verifiable.WithPresProofChecker(w.checker), verifiable.WithPresJSONLDDocumentLoader(l), verifiable.WithDisabledJSONLDChecks(),
			verifiable.WithPresDataIntegrityVerifier(w.divf))
		if err != nil {
			bad("unverifiable", "the token does not verify: %v", err)

			return
		}

		vp.JWT, vp.CWT = "", nil

		b, err := vp.MarshalJSON()
		if err != nil {
			bad("unreadable", "%v", err)

			return
		}

		if got := world.Dec(b); !sameVP(got, src) {
			bad("content", "the token says something else than the presentation:\n%s", b)
		}

		return
	}

	vc, err := verifiable.ParseCredential(data, verifiable.WithProofChecker(w.checker), verifiable.WithJSONLDDocumentLoader(l), verifiable.WithCredDisableValidation(),
		verifiable.WithDataIntegrityVerifier(w.divf))
	if err != nil {
		bad("unverifiable", "the token does not verify: %v", err)

		return
	}

	if discs != nil || form == "sdjwt" || form == "present" {
		vc, err = vc.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
		if err != nil {
			bad("unreadable", "%v", err)

			return
		}
	}

	got, want := canonDoc(normDates(asJSON(vc.ToRawJSON()))), canonDoc(normDates(src))

	if form == "sdjwt" || form == "present" { // proofs over the undisclosed claims need not come along
		delete(got, "proof")
		delete(want, "proof")
	}

	for _, d := range []world.J{got, want} {
		if d["proof"] != nil {
			d["proof"] = list(d["proof"])
		}
	}

	if !world.Same(got, want) {
		bad("content", "the token says something else than the credential:\n%s", world.Enc(got))
	}
}

// bind has a holder present an SD-JWT with a key binding while its own signing service fails.
func (w *issWorld) bind(tok string) {
	r := w.r
	hk := &kms{w: w, k: world.GetKey(world.Ed, 3), down: map[int]int{}}

	vc, err := verifiable.ParseCredential([]byte(tok), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(world.NewLoader(r)), verifiable.WithCredDisableValidation())
	if err != nil {
		r.Violate("wrong-token", "vc sdjwt unreadable", "%v\n%s", err, tok)

		return
	}

	dump := world.Dump(vc)
	info := &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n-1", Audience: "did:sim:verifier"}, Signer: hk}

	var (
		out  string
		cerr error
	)

	if p := core.Do(func() {
		out, cerr = vc.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DisclosureHolderBinding(info))
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "presenting panicked: %s\n%s", p, tok)

		return
	}

	r.Eval("sdjwt bound calm=%v failed=%v", len(hk.down) == 0, cerr != nil)

	if d := world.Dump(vc); d != dump {
		r.Violate("source-changed", "bind", "presenting (%v) changed the credential:\nbefore %s\nafter  %s", cerr, dump, d)
	}

	if cerr != nil {
		if out != "" {
			r.Violate("wrong-token", "bind error-with-result", "presenting failed (%v) but returned %q", cerr, out)
		}

		if len(hk.down) == 0 {
			r.Violate("cannot-issue", "bind", "presenting failed though nothing failed: %v", cerr)
		}

		return
	}

	d0 := strings.Split(strings.TrimSuffix(tok, "~"), "~")
	j, d, kb := splitSD(out)

	if j != d0[0] || len(d) != len(d0)-1 {
		r.Violate("wrong-token", "bind content", "presented %q of %q", out, tok)

		return
	}

	_, p, sig, ok := splitJWT(kb)
	if at := strings.LastIndex(kb, "."); !ok || !hk.made(0, []byte(kb[:at]), sig) || world.Dec(p)["nonce"] != "n-1" || world.Dec(p)["aud"] != "did:sim:verifier" {
		r.Violate("wrong-token", "bind signature", "the key binding %q is not what the holder's signing service signed", kb)
	}
}

// kmsTypes are the names a KMS has for the type of key k.
func kmsTypes(k *world.Key) []kmsapi.KeyType {
	switch k.Kind {
	case world.P256:
		return []kmsapi.KeyType{kmsapi.ECDSAP256TypeIEEEP1363, kmsapi.ECDSAP256TypeDER}
	case world.P384:
		return []kmsapi.KeyType{kmsapi.ECDSAP384TypeIEEEP1363, kmsapi.ECDSAP384TypeDER}
	case world.P521:
		return []kmsapi.KeyType{kmsapi.ECDSAP521TypeIEEEP1363, kmsapi.ECDSAP521TypeDER}
	case world.K256:
		return []kmsapi.KeyType{kmsapi.ECDSASecp256k1TypeIEEEP1363, kmsapi.ECDSASecp256k1DER}
	}

	return []kmsapi.KeyType{k.Type}
}
