package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/did-go/doc/ld/proof"

	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/world"
)

// ldRec is one act of signing a JSON-LD document.
type ldRec struct {
	by    string // DID
	vm    string
	key   *world.Key
	canon string
	proof world.J // its proof object
}

// ldSigned is a document with the proofs its owner put on it.
type ldSigned struct {
	by     string
	doc    world.J
	recs   []*ldRec
	subTag string
}

type ldWorld struct {
	sloppy  bool // issuers sometimes get the name of their key wrong
	r       *core.Run
	reg     *world.Registry
	loader  *world.Loader
	issuers []*world.Actor
	evil    *world.Actor
	signed  []*ldSigned
	recs    []*ldRec
	seq     int
	checker verifiable.CombinedProofChecker
}

var ldKinds = []world.Kind{world.Ed, world.P256, world.P384, world.K256, world.Ed, world.RSAPS, world.P521}

// newLDActor publishes a DID whose keys can make linked data proofs.
func newLDActor(r *core.Run, reg *world.Registry, id string, max int, types bool) *world.Actor {
	var ks []world.Kind
	for i, n := 0, r.N(1, max, "keys"); i < n; i++ {
		ks = append(ks, ldKinds[r.Choose(len(ldKinds), "kind")])
	}

	a := world.NewActor(r, reg, id, ks...)
	again := false

	for i := range a.Cur {
		if types && a.Cur[i].Key.Kind == world.Ed && r.Chance(1, 2, "vm-type") {
			a.Cur[i].Type = []string{"Ed25519VerificationKey2018", "Ed25519VerificationKey2020"}[r.Choose(2, "vm")]
			again = true
		}
	}

	if again {
		a.Publish()
	}

	return a
}

func newLDWorld(r *core.Run) *ldWorld { return newLDWorldOf(r, true) }

// newLDWorldOf: types says whether Ed25519 keys may be listed under their own verification method types.
func newLDWorldOf(r *core.Run, types bool) *ldWorld {
	w := &ldWorld{sloppy: true, r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r)}

	for i := 0; i < 2; i++ {
		w.issuers = append(w.issuers, newLDActor(r, w.reg, fmt.Sprintf("did:sim:issuer%d", i), 3, types))
	}

	w.evil = newLDActor(r, w.reg, evilDID(r, w.issuers[0].DID), 2, types)

	if r.Chance(1, 3, "evil-doc") {
		e := w.evil.Cur[0]
		e.ID = w.issuers[0].KID(0)
		w.evil.Cur = append(w.evil.Cur, e)
		w.evil.Publish()
	}

	w.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(w.reg))

	return w
}

type ldSuite struct {
	typ string
	rep verifiable.SignatureRepresentation
}

// suitesFor lists the proof suites a published method can be used with.
func suitesFor(e world.Entry) []ldSuite {
	jws, pv := verifiable.SignatureJWS, verifiable.SignatureProofValue
	web := []ldSuite{{"JsonWebSignature2020", jws}, {"JsonWebSignature2020", pv}}

	switch e.Key.Kind {
	case world.Ed:
		s18 := []ldSuite{{"Ed25519Signature2018", jws}, {"Ed25519Signature2018", pv}}
		s20 := []ldSuite{{"Ed25519Signature2020", pv}} // its type is no term of the contexts of a JWS

		switch e.Type {
		case "Ed25519VerificationKey2018":
			return append(s18, s20...)
		case "Ed25519VerificationKey2020":
			return s20
		}

		return append(append(web, s18...), s20...)
	case world.K256:
		return append(web, ldSuite{"EcdsaSecp256k1Signature2019", jws}, ldSuite{"EcdsaSecp256k1Signature2019", pv})
	}

	return web
}

var ldStamps = []time.Time{
	time.Date(2024, 2, 1, 10, 20, 30, 0, time.UTC),
	time.Date(2024, 2, 1, 10, 20, 30, 123456789, time.UTC),
	time.Date(2024, 2, 1, 10, 20, 30, 0, time.FixedZone("", 7200)),
}

// proofContext makes the options of one proof by entry i of a.
func (w *ldWorld) proofContext(a *world.Actor, i int, s *world.Signer) *verifiable.LinkedDataProofContext {
	r := w.r
	e := a.Cur[i]
	su := suitesFor(e)
	x := su[r.Choose(len(su), "suite")]
	c := &verifiable.LinkedDataProofContext{
		SignatureType: x.typ, SignatureRepresentation: x.rep, KeyType: e.Key.Type, ProofCreator: world.Creator(s), VerificationMethod: a.KID(i),
	}

	if w.sloppy && r.Chance(1, 12, "sloppy-kid") { // no DID document has a method of this name
		c.VerificationMethod = a.DID + "#" + []string{"x-" + e.Fragment, e.Fragment + "0", strings.ToUpper(e.Fragment) + "Z", e.Fragment[:len(e.Fragment)-1]}[r.Choose(4, "sloppy")]
		r.FaultFired("inexact-key-name")
	}

	if r.Chance(1, 2, "created") {
		t := ldStamps[r.Choose(len(ldStamps), "stamp")]
		c.Created = &t
	}

	if r.Chance(1, 3, "purpose") {
		c.Purpose = []string{"assertionMethod", "authentication", "capabilityInvocation"}[r.Choose(3, "purpose")]
	}

	if r.Chance(1, 4, "challenge") {
		c.Challenge = fmt.Sprintf("ch-%d", r.Choose(3, "ch"))
	}

	if r.Chance(1, 4, "domain") {
		c.Domain = []string{"example.com", "https://rp.example/x"}[r.Choose(2, "dom")]
	}

	if r.Chance(1, 10, "capability") {
		c.CapabilityChain = []any{"urn:cap:1"}
	}

	return c
}

// asJSON is an object's JSON view.
func asJSON(v any) world.J { return world.Dec(world.Enc(v)) }

func proofsOf(doc world.J) ([]world.J, bool) {
	switch p := doc["proof"].(type) {
	case map[string]any:
		return []world.J{p}, true
	case []any:
		var o []world.J

		for _, e := range p {
			m, ok := e.(map[string]any)
			if !ok {
				return nil, false
			}

			o = append(o, m)
		}

		return o, len(o) > 0
	}

	return nil, false
}

// record notes the newest proof of doc as made by a's entry i.
func (w *ldWorld) record(a *world.Actor, i int, doc world.J) *ldRec {
	ps, ok := proofsOf(doc)
	if !ok {
		w.r.Violate("cannot-issue", "no-proof", "the signed document carries no proof: %s", world.Enc(doc))

		return nil
	}

	c, err := world.Canon(doc)
	if err != nil {
		panic(fmt.Sprintf("canon: %v\n%s", err, world.Enc(doc)))
	}

	rec := &ldRec{by: a.DID, vm: str(ps[len(ps)-1]["verificationMethod"]), key: a.Cur[i].Key, canon: c, proof: ps[len(ps)-1]}
	w.recs = append(w.recs, rec)

	return rec
}

// sign parses a credential and puts n proofs on it through the code under test.
func (w *ldWorld) sign(a *world.Actor, vc world.J, n int) *ldSigned {
	r := w.r
	popts := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(world.NewLoader(r)),
		verifiable.WithCredDisableValidation()}

	cred, err := verifiable.ParseCredential(world.Enc(vc), popts...)
	if err != nil {
		r.Violate("cannot-issue", "parse", "a valid credential was refused: %v\n%s", err, world.Enc(vc))

		return nil
	}

	out := &ldSigned{by: a.DID}

	for k := 0; k < n; k++ {
		i := r.Choose(len(a.Cur), "key")
		s := &world.Signer{K: a.Cur[i].Key, R: r}
		c := w.proofContext(a, i, s)

		if err := cred.AddLinkedDataProof(c, processor.WithDocumentLoader(world.NewLoader(r))); err != nil {
			r.Violate("cannot-issue", "sign "+c.SignatureType, "a valid credential could not be signed with %s (%s): %v\n%s", c.SignatureType, s.K.Kind, err, world.Enc(vc))

			return nil
		}

		b, err := cred.MarshalJSON()
		if err != nil {
			r.Violate("cannot-issue", "marshal", "%v", err)

			return nil
		}

		out.doc = world.Dec(b)

		if rec := w.record(a, i, out.doc); rec != nil {
			out.recs = append(out.recs, rec)
		}
	}

	noProof := world.CloneJ(out.doc)
	delete(noProof, "proof")

	if !world.Same(noProof, vc) {
		r.Violate("cannot-issue", "content", "signing changed the credential:\nbefore %s\nafter  %s", world.Enc(vc), world.Enc(noProof))
	}

	w.signed = append(w.signed, out)

	return out
}

func str(v any) string { s, _ := v.(string); return s }

// sameProofOptions compares the signed members of two proofs.
func sameProofOptions(a, b world.J) bool {
	for _, k := range []string{"type", "creator", "verificationMethod", "proofPurpose", "domain", "challenge"} {
		if str(a[k]) != str(b[k]) {
			return false
		}
	}

	x, e1 := time.Parse(time.RFC3339Nano, str(a["created"]))
	y, e2 := time.Parse(time.RFC3339Nano, str(b["created"]))

	if e1 != nil || e2 != nil || !x.Equal(y) {
		return false
	}

	ca, _ := a["capabilityChain"].([]any)
	cb, _ := b["capabilityChain"].([]any)

	return len(ca) == 0 && len(cb) == 0 || world.Same(ca, cb)
}

// authentic says what is wrong with accepting doc as issued by issuer, "" if nothing.
func (w *ldWorld) authentic(doc world.J, issuer string, res []world.Resolution) (key, why string) {
	d := world.CloneJ(doc)
	delete(d, "jwt")

	c, err := world.Canon(d)
	if err != nil {
		return "not-ld", fmt.Sprintf("it is not a JSON-LD document: %v", err)
	}

	ps, ok := proofsOf(doc)
	if !ok {
		return "no-proof", "it carries no proof"
	}

	for i, p := range ps {
		var rec *ldRec

		sameDoc, sameOpts, others := false, false, false

		for _, x := range w.recs {
			sd, so := x.canon == c, sameProofOptions(x.proof, p)
			if sd && so && x.by == issuer {
				// the same statement may be signed by several keys: prefer a listed one
				if rec == nil || listedIn(res, issuer, x) {
					rec = x
				}
			}

			sameDoc = sameDoc || sd && x.by == issuer
			sameOpts = sameOpts || so
			others = others || sd && so
		}

		switch {
		case rec == nil && others:
			return "other-signer", fmt.Sprintf("proof %d is somebody else's, not of its stated issuer %s", i, issuer)
		case rec == nil && sameDoc:
			return "options-changed", fmt.Sprintf("its stated issuer %s never made proof %d with these options: %s", issuer, i, world.Enc(p))
		case rec == nil:
			return "not-signed", fmt.Sprintf("its stated issuer %s never signed this document (proof %d)", issuer, i)
		case !listedIn(res, issuer, rec):
			return "key-not-listed", fmt.Sprintf("the registry's answers never listed the key %s of proof %d for a purpose other than key agreement", rec.vm, i)
		}
	}

	return "", ""
}

func listedIn(res []world.Resolution, did string, rec *ldRec) bool {
	for _, x := range res {
		if x.DID == did && x.Version.Lists(rec.vm, rec.key) {
			return true
		}
	}

	return false
}

// shouldAccept: every proof's key was listed by every answer of the registry.
func shouldAccept(recs []*ldRec, by string, res []world.Resolution) bool {
	if len(res) == 0 {
		return false
	}

	for _, x := range res {
		if x.DID != by || x.Version == nil {
			return false
		}

		for _, rec := range recs {
			if !x.Version.Lists(rec.vm, rec.key) {
				return false
			}
		}
	}

	return true
}

// forgeProof makes the attacker's own proof over doc, naming vm as its method.
func (w *ldWorld) forgeProof(doc world.J, vm string) world.J {
	r := w.r
	i := 0
	s := &world.Signer{K: w.evil.Cur[i].Key, R: r}
	c := w.proofContext(w.evil, i, s)
	d := asJSON(doc)
	delete(d, "proof")

	ctx := &lddocument.SigningContext{SignatureType: c.SignatureType, SignatureRepresentation: proof.SignatureRepresentation(c.SignatureRepresentation),
		KeyType: c.KeyType, Created: c.Created, VerificationMethod: vm, Purpose: c.Purpose, Challenge: c.Challenge, Domain: c.Domain}

	if r.Chance(1, 6, "creator") {
		ctx.Creator = vm
		ctx.VerificationMethod = ""

		if r.Chance(1, 2, "both") {
			vm = w.evil.KID(0) // this one counts
			ctx.VerificationMethod = vm
		}
	}

	var err error

	if p := core.Do(func() {
		err = lddocument.NewDocumentSigner(c.ProofCreator).Sign(ctx, d, processor.WithDocumentLoader(world.NewLoader(r)))
	}); p != "" || err != nil {
		return nil // the attacker's own trouble
	}

	d = asJSON(d)

	ps, ok := proofsOf(d)
	if !ok {
		return nil
	}

	if cn, err := world.Canon(d); err == nil {
		w.recs = append(w.recs, &ldRec{by: w.evil.DID, vm: vm, key: s.K, canon: cn, proof: ps[0]})
	}

	return ps[0]
}

// signDoc puts a proof by a's entry i on any document, through the code under test's document signer.
func (w *ldWorld) signDoc(a *world.Actor, i int, doc world.J) (world.J, *ldRec, error) {
	r := w.r
	s := &world.Signer{K: a.Cur[i].Key, R: r}
	c := w.proofContext(a, i, s)
	d := asJSON(doc)

	ctx := &lddocument.SigningContext{SignatureType: c.SignatureType, SignatureRepresentation: proof.SignatureRepresentation(c.SignatureRepresentation),
		KeyType: c.KeyType, Created: c.Created, VerificationMethod: c.VerificationMethod, Purpose: c.Purpose, Challenge: c.Challenge, Domain: c.Domain}

	if err := lddocument.NewDocumentSigner(c.ProofCreator).Sign(ctx, d, processor.WithDocumentLoader(world.NewLoader(r))); err != nil {
		return nil, nil, err
	}

	d = asJSON(d)

	return d, w.record(a, i, d), nil
}
