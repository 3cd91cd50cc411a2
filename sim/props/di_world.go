package props

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	wrapperapi "github.com/trustbloc/kms-go/wrapper/api"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"

	"vcsim/core"
	"vcsim/world"
)

// DIv2 is the data integrity context.
const DIv2 = "https://w3id.org/security/data-integrity/v2"

// diOpt are the signed options of a data integrity proof.
type diOpt struct {
	typ, suite, purpose, vm, domain, challenge string
	created, expires                           time.Time
}

// diRec is one act of signing with a data integrity proof.
type diRec struct {
	by    string
	key   *world.Key
	canon string
	opt   diOpt
}

type diSigned struct {
	by   string
	doc  world.J
	recs []*diRec
}

type diWorld struct {
	r        *core.Run
	reg      *world.Registry
	loader   *world.Loader
	issuers  []*world.Actor
	evil     *world.Actor
	recs     []*diRec
	signed   []*diSigned
	seq      int
	verifier *dataintegrity.Verifier
}

// calm resolves DIDs without faults: what an owner knows of its own DID.
type calm struct{ reg *world.Registry }

func (c calm) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	if v := c.reg.Latest(id); v != nil {
		return &did.DocResolution{DIDDocument: v.Doc}, nil
	}

	return nil, errors.New("no such DID")
}

func newDIActor(r *core.Run, reg *world.Registry, id string) *world.Actor {
	var ks []world.Kind
	for i, n := 0, r.N(1, 3, "keys"); i < n; i++ {
		ks = append(ks, []world.Kind{world.Ed, world.P256, world.P384}[r.Choose(3, "kind")])
	}

	a := world.NewActor(r, reg, id, ks...)

	for i := range a.Cur {
		if r.Chance(1, 3, "vm-type") {
			a.Cur[i].Type = diType(a.Cur[i].Key.Kind)
		}

		if r.Chance(1, 3, "rels") {
			a.Cur[i].Rels = world.AllRels
		}
	}

	a.Publish()

	return a
}

func diType(k world.Kind) string {
	if k == world.Ed {
		return "Ed25519VerificationKey2020"
	}

	return "Multikey"
}

func newDIWorld(r *core.Run) *diWorld {
	w := &diWorld{r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r)}

	for i := 0; i < 2; i++ {
		w.issuers = append(w.issuers, newDIActor(r, w.reg, fmt.Sprintf("did:sim:issuer%d", i)))
	}

	w.evil = newDIActor(r, w.reg, evilDID(r, w.issuers[0].DID))

	if r.Chance(1, 3, "evil-doc") {
		e := w.evil.Cur[0]
		e.ID = w.issuers[0].KID(0)
		w.evil.Cur = append(w.evil.Cur, e)
		w.evil.Publish()
	}

	w.verifier = newDIVerifier(w.reg, w.loader)

	return w
}

func newDIVerifier(reg *world.Registry, loader *world.Loader) *dataintegrity.Verifier {
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: reg},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: loader}))
	if err != nil {
		panic(err)
	}

	return v
}

// keeper hands out the signing service of the one key it holds.
type keeper struct {
	wrapperapi.KMSCryptoSigner
	s *world.Signer
}

func (k keeper) FixedKeySigner(*jwk.JWK) (wrapperapi.FixedKeySigner, error) { return k.s, nil }

// diSigner is a signer whose signing service is s.
func (w *diWorld) diSigner(s *world.Signer, res interface {
	Resolve(string, ...vdrapi.DIDMethodOption) (*did.DocResolution, error)
}) *dataintegrity.Signer {
	l := world.NewLoader(w.r)

	var (
		ec ecdsa2019.SignerGetter = func(*jwk.JWK) (ecdsa2019.Signer, error) { return s, nil }
		ed eddsa2022.SignerGetter = func(*jwk.JWK) (eddsa2022.Signer, error) { return s, nil }
	)

	switch w.r.Choose(3, "signer-getter") {
	case 1:
		ec, ed = ecdsa2019.WithStaticSigner(s), eddsa2022.WithStaticSigner(s)
	case 2:
		k := keeper{s: s}
		ec, ed = ecdsa2019.WithKMSCryptoWrapper(k), eddsa2022.WithKMSCryptoWrapper(k)
	}

	sg, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: res},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: l, SignerGetter: ec}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: l, SignerGetter: ed}))
	if err != nil {
		panic(err)
	}

	return sg
}

func diSuites(k world.Kind) []string {
	if k == world.Ed {
		return []string{"eddsa-rdfc-2022", "eddsa-2022"}
	}

	return []string{"ecdsa-rdfc-2019", "ecdsa-2019"}
}

var relOf = map[string]did.VerificationRelationship{"assertionMethod": did.AssertionMethod, "authentication": did.Authentication,
	"capabilityInvocation": did.CapabilityInvocation, "capabilityDelegation": did.CapabilityDelegation}

// diLists reports whether a DID document lists k under vm's fragment for a purpose; only: and nothing else under it.
func diLists(v *world.Version, vm, purpose string, k *world.Key) (any, only bool) {
	if v == nil {
		return false, false
	}

	rel, ok := relOf[purpose]
	if !ok {
		return false, false
	}

	i := strings.Index(vm, "#")
	frag := vm[i+1:]
	n := 0

	for _, e := range v.Entries {
		id := v.VMID(e)
		if id[strings.Index(id, "#")+1:] != frag {
			continue
		}

		n++

		for _, x := range e.Rels {
			if e.Key == k && (x == rel || rel == did.AssertionMethod && x == did.VerificationRelationshipGeneral) {
				any = true
			}
		}
	}

	return any, any && n == 1
}

func parseSec(s string) (time.Time, bool) {
	if s == "" {
		return time.Time{}, true
	}

	t, err := time.Parse(time.RFC3339, s)

	return t.Truncate(time.Second), err == nil
}

// diOptOf reads the signed options of a proof.
func diOptOf(p world.J) (diOpt, bool) {
	o := diOpt{typ: str(p["type"]), suite: str(p["cryptosuite"]), purpose: str(p["proofPurpose"]), vm: str(p["verificationMethod"]),
		domain: str(p["domain"]), challenge: str(p["challenge"])}

	var a, b bool

	o.created, a = parseSec(str(p["created"]))
	o.expires, b = parseSec(str(p["expires"]))

	if str(p["proofValue"]) == "" {
		return o, false
	}

	for _, k := range []string{"domain", "challenge", "created", "expires"} {
		if _, isStr := p[k].(string); p[k] != nil && !isStr {
			return o, false
		}
	}

	return o, a && b
}

func (a diOpt) same(b diOpt) bool {
	return a.typ == b.typ && a.suite == b.suite && a.purpose == b.purpose && a.vm == b.vm && a.domain == b.domain && a.challenge == b.challenge &&
		a.created.Equal(b.created) && a.expires.Equal(b.expires)
}

func noProof(doc world.J) world.J {
	d := world.CloneJ(doc)
	delete(d, "proof")

	return d
}

// sign adds a proof by entry i of a to doc by the library, as chosen, and checks what came of it.
// add is the library call: it returns the document with the proof.
func (w *diWorld) record(a *world.Actor, i int, doc world.J, purpose, suite string, domain, challenge string, created, expires time.Time) *diRec {
	c, err := world.Canon(noProof(doc))
	if err != nil {
		w.r.Violate("cannot-issue", "canon", "%v", err)

		return nil
	}

	rec := &diRec{by: a.DID, key: a.Cur[i].Key, canon: c, opt: diOpt{typ: models.DataIntegrityProof, suite: suite, purpose: purpose, vm: a.KID(i),
		domain: domain, challenge: challenge, created: created.Truncate(time.Second), expires: expires.Truncate(time.Second)}}
	w.recs = append(w.recs, rec)

	return rec
}

// diWant is what a verifier asks for.
type diWant struct {
	purpose, domain, challenge string
	issuer                     string // "": any
}

// authentic says what is wrong with accepting doc at times in [t0,t1], "" if nothing.
func (w *diWorld) authentic(doc world.J, want diWant, res []world.Resolution, t0, t1 time.Time) (key, why string) {
	c, err := world.Canon(noProof(doc))
	if err != nil {
		return "not-ld", fmt.Sprintf("it is not a JSON-LD document: %v", err)
	}

	ps, ok := proofsOf(doc)
	if !ok || len(ps) == 0 {
		return "no-proof", "it carries no proof"
	}

	for i, p := range ps {
		o, ok := diOptOf(p)
		if !ok {
			return "options-changed", fmt.Sprintf("proof %d has malformed options: %s", i, world.Enc(p))
		}

		if o.purpose != want.purpose {
			return "purpose", fmt.Sprintf("proof %d is for %q, not for the expected %q", i, o.purpose, want.purpose)
		}

		if want.domain != "" && o.domain != want.domain {
			return "domain", fmt.Sprintf("proof %d is for domain %q, not for the expected %q", i, o.domain, want.domain)
		}

		if want.challenge != "" && o.challenge != want.challenge {
			return "challenge", fmt.Sprintf("proof %d answers challenge %q, not the expected %q", i, o.challenge, want.challenge)
		}

		if !o.expires.IsZero() && t0.After(o.expires.Add(time.Second)) {
			return "expired", fmt.Sprintf("proof %d expired at %s and it is %s", i, o.expires, t0)
		}

		var rec *diRec

		listed, sameDoc, sameOpts := false, false, false

		for _, x := range w.recs {
			sd, so := x.canon == c, x.opt.same(o)
			sameDoc, sameOpts = sameDoc || sd, sameOpts || so

			if !sd || !so || listed {
				continue
			}

			rec = x

			for _, y := range res {
				if a, _ := diLists(y.Version, o.vm, o.purpose, x.key); a && y.DID == strings.SplitN(o.vm, "#", 2)[0] {
					listed = true
				}
			}
		}

		switch {
		case rec == nil && sameDoc:
			return "options-changed", fmt.Sprintf("nobody made proof %d with these options: %s", i, world.Enc(p))
		case rec == nil:
			return "not-signed", fmt.Sprintf("nobody signed this document (proof %d)", i)
		case want.issuer != "" && rec.by != want.issuer:
			return "other-signer", fmt.Sprintf("proof %d is by %s, not by the stated issuer %s", i, rec.by, want.issuer)
		case !listed:
			return "key-not-listed", fmt.Sprintf("the registry's answers never listed the key of %s for %s", o.vm, o.purpose)
		}
	}

	return "", ""
}

// mustAccept reports whether a clean delivery of s has to be accepted.
func diMustAccept(recs []*diRec, want diWant, res []world.Resolution, t0, t1 time.Time) bool {
	if len(res) == 0 || len(recs) == 0 {
		return false
	}

	for _, x := range res {
		if x.Version == nil {
			return false
		}
	}

	for _, rec := range recs {
		o := rec.opt
		if o.purpose != want.purpose || want.domain != "" && o.domain != want.domain || want.challenge != "" && o.challenge != want.challenge ||
			!o.expires.IsZero() && !t1.Before(o.expires) || want.issuer != "" && rec.by != want.issuer {
			return false
		}

		for _, x := range res {
			if x.DID != strings.SplitN(o.vm, "#", 2)[0] {
				continue
			}

			if _, only := diLists(x.Version, o.vm, o.purpose, rec.key); !only {
				return false
			}
		}
	}

	return true
}
