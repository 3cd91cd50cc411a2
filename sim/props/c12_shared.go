package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/ld/processor"
	util "github.com/trustbloc/did-go/doc/util/time"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/simrt"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C12", Title: "Credentials, verifiers and signers can be shared by concurrent users", Run: runShared, Race: true,
		Rule:    "one operation on objects shared by concurrent tasks, compared with its outcome on its own, with the race detector watching",
		Measure: "operation x form of the object x concurrent operations x verdict",
		Real:    []string{"verifiable", "sdjwt/issuer", "sdjwt/holder", "sdjwt/common", "jwt", "cwt", "dataintegrity", "proof/checker", "proof/creator", "presexch is covered by C16 and C17"},
		Stub:    []string{"DID registry", "remote signer", "JSON-LD document loader", "goroutine scheduler", "clock", "random source"},
	})
}

// shForm is one credential of the application: its bytes, and the object everybody shares.
type shForm struct {
	form string
	doc  world.J
	raw  []byte
	cred *verifiable.Credential
}

type shWorld struct {
	r       *core.Run
	reg     *world.Registry
	loader  *world.Loader
	a       *world.Actor
	checker verifiable.CombinedProofChecker
	creator *creator.ProofCreator
	di      *diWorld
	divf    *dataintegrity.Verifier
	dis     *dataintegrity.Signer
	forms   []*shForm
	vps     []*verifiable.Presentation
	vpRaw   [][]byte
	copts   []verifiable.CredentialOpt
	popts   []verifiable.PresentationOpt
	ldc     *verifiable.LinkedDataProofContext
	dic     *verifiable.DataIntegrityProofContext
	names   []string
	subject []verifiable.Subject
	seq     int
	lenient bool // resolving may fail
}

func newSharedWorld(r *core.Run) *shWorld {
	w := &shWorld{r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r)}
	// signatures by these keys are a function of key and message: outcomes can be compared byte for byte
	w.a = world.NewActor(r, w.reg, "did:sim:issuer0", world.Ed)
	w.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(w.reg))
	w.creator = world.Creator(&world.Signer{K: w.a.Cur[0].Key, R: r})
	w.di = &diWorld{r: r, reg: w.reg, loader: w.loader}
	w.divf = newDIVerifier(w.reg, w.loader)
	w.dis = w.di.diSigner(&world.Signer{K: w.a.Cur[0].Key, R: r}, w.reg)

	// what an application sets up once has room to grow
	w.copts = append(make([]verifiable.CredentialOpt, 0, 16), verifiable.WithProofChecker(w.checker),
		verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithDataIntegrityVerifier(w.divf),
		verifiable.WithExpectedDataIntegrityFields("assertionMethod", "", ""))

	if !r.Chance(1, 12, "validation") {
		w.copts = append(w.copts, verifiable.WithCredDisableValidation())
	}

	w.popts = append(make([]verifiable.PresentationOpt, 0, 16), verifiable.WithPresProofChecker(w.checker),
		verifiable.WithPresJSONLDDocumentLoader(w.loader), verifiable.WithPresDataIntegrityVerifier(w.divf),
		verifiable.WithPresExpectedDataIntegrityFields("assertionMethod", "", ""), verifiable.WithDisabledJSONLDChecks())
	w.names = append(make([]string, 0, 16), "name", "serial")
	created := time.Date(2024, 2, 1, 10, 20, 30, 0, time.UTC)
	w.ldc = &verifiable.LinkedDataProofContext{SignatureType: "Ed25519Signature2018", SignatureRepresentation: verifiable.SignatureJWS,
		KeyType: w.a.Cur[0].Key.Type, ProofCreator: w.creator, VerificationMethod: w.a.KID(0), Created: &created}
	w.dic = &verifiable.DataIntegrityProofContext{SigningKeyID: w.a.KID(0), ProofPurpose: "assertionMethod", CryptoSuite: "eddsa-rdfc-2022", Created: &created}
	w.subject = append(make([]verifiable.Subject, 0, 8), verifiable.Subject{ID: "did:sim:other", CustomFields: map[string]any{"k": "v"}})

	return w
}

var shForms = []string{"unsigned", "jwt", "sdjwt", "sdjwt5", "cose", "ld", "di"}

// make issues one credential.
func (w *shWorld) make() {
	r := w.r
	w.seq++
	v2 := r.Chance(1, 2, "v2")
	f := &shForm{form: shForms[r.Choose(len(shForms), "form")]}
	token := strings.Contains("jwt sdjwt sdjwt5 cose", f.form) // those need exactly one subject with an id
	f.doc = world.GenVC(r, world.VCSpec{Issuer: w.a.DID, Subject: "did:sim:holder", V2: v2, Flat: token || !r.Chance(1, 3, "any-subject"), Seq: w.seq, NoNumbers: true})

	popts := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithCredDisableValidation()}

	c, err := verifiable.ParseCredential(world.Enc(f.doc), popts...)
	if err != nil {
		r.Violate("cannot-issue", "parse", "a valid credential was refused: %v\n%s", err, world.Enc(f.doc))

		return
	}

	s := &world.Signer{K: w.a.Cur[0].Key, R: r}

	switch f.form {
	case "unsigned":
		f.raw = world.Enc(f.doc)
	case "jwt":
		if c, err = c.CreateSignedJWTVC(r.Chance(1, 2, "minimize"), verifiable.EdDSA, w.creator, w.a.KID(0)); err == nil {
			var t string
			t, err = c.ToJWTString()
			f.raw = []byte(t)
		}
	case "sdjwt", "sdjwt5":
		var (
			t string
			o []verifiable.MakeSDJWTOption
		)

		if f.form == "sdjwt5" {
			o = append(o, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5))
		}

		t, err = c.MakeSDJWT(joseSigner{s}, w.a.KID(0), o...)
		f.raw = []byte(t)
	case "cose":
		if c, err = c.CreateSignedCOSEVC(coseAlg(world.Ed), w.creator, w.a.KID(0)); err == nil {
			f.raw, err = c.MarshalAsCWTLD()
		}
	case "ld":
		for i, n := 0, []int{1, 2, 3, 5}[r.Choose(4, "proofs")]; i < n && err == nil; i++ {
			err = c.AddLinkedDataProof(w.ldc, processor.WithDocumentLoader(w.loader))
		}

		if err == nil {
			f.raw, err = c.MarshalJSON()
		}
	case "di":
		for i, n := 0, r.N(1, 3, "proofs"); i < n && err == nil; i++ {
			err = c.AddDataIntegrityProof(w.dic, w.dis)
		}

		if err == nil {
			f.raw, err = c.MarshalJSON()
		}
	}

	if err == nil {
		if f.form == "unsigned" {
			f.cred, err = verifiable.ParseCredential(f.raw, popts...)
		} else if f.cred = c; strings.HasPrefix(f.form, "sdjwt") || r.Chance(1, 2, "as-received") {
			f.cred, err = verifiable.ParseCredential(bytes.Clone(f.raw), w.copts...)
		}
	}

	if err != nil && w.lenient {
		return
	}

	if err != nil {
		r.Violate("cannot-issue", f.form, "a valid credential could not be issued: %v\n%s\n%s", err, world.Enc(f.doc), f.raw)

		return
	}

	w.forms = append(w.forms, f)
}

// present makes one presentation of some of the credentials.
func (w *shWorld) present() {
	r := w.r
	var cs []*verifiable.Credential

	for i, n := 0, r.Choose(6, "credentials"); i < n; i++ {
		cs = append(cs, w.forms[r.Choose(len(w.forms), "include")].cred)
	}

	vp, err := verifiable.NewPresentation(verifiable.WithCredentials(cs...))
	if err != nil {
		r.Violate("cannot-issue", "presentation", "%v", err)

		return
	}

	vp.ID, vp.Holder = fmt.Sprintf("urn:vp:%d", len(w.vps)), "did:sim:issuer0"
	vp.CustomFields = verifiable.CustomFields{"extra": "field"}

	var raw []byte

	switch r.Choose(3, "vp-form") {
	case 1:
		if vp, err = vp.CreateJWTVP([]string{"aud"}, verifiable.EdDSA, w.creator, w.a.KID(0), r.Chance(1, 2, "minimize")); err == nil {
			raw = []byte(vp.JWT)
		}
	case 2:
		if err = vp.AddLinkedDataProof(w.ldc, processor.WithDocumentLoader(w.loader)); err == nil {
			raw, err = vp.MarshalJSON()
		}
	default:
		raw, err = vp.MarshalJSON()
	}

	if err != nil {
		r.Logf("presentation not made: %v", err) // V1 presentations cannot take every mix of forms

		return
	}

	w.vps = append(w.vps, vp)
	w.vpRaw = append(w.vpRaw, raw)
}

type shOp struct {
	name string
	vary bool // the outcome holds salts: compare what it says
	run  func() (string, error)
}

func shJSON(v any, err error) (string, error) {
	if err != nil {
		return "", err
	}

	b, err := json.Marshal(v)

	return string(b), err
}

// credJSON is all one can read off a credential.
func credText(c *verifiable.Credential) string {
	b, err := c.MarshalJSON()
	j, err2 := json.Marshal(jsonOf(c.ToRawJSON()))
	n := c.Contents()
	ds := []string{}

	for _, d := range c.SDJWTDisclosures() {
		ds = append(ds, d.Name)
	}

	sort.Strings(ds)

	return fmt.Sprintf("%s %v | %s %v | %s %v %v %v %s %s | %v | %v | %d", b, err, j, err2, n.ID, n.Types, n.Context, n.Issuer, tw(n.Issued), tw(n.Expired), n.Subject, ds, len(c.Proofs()))
}

// sdText is what an SD-JWT says, without its salts.
func sdText(t string, err error) (string, error) {
	if err != nil {
		return "", err
	}

	tok, discs, _ := splitSD(t + "~") // as issued it has none at its end
	_, p, _, ok := splitJWT(tok)

	if !ok {
		return "", fmt.Errorf("no JWT: %s", t)
	}

	var names []string

	for _, d := range discs {
		x, err := decodeDisc(d, 5)
		if err != nil {
			return "", err
		}

		names = append(names, fmt.Sprintf("%v", x.value))
	}

	return fmt.Sprintf("%d disclosures in %d bytes", len(names), len(p)/4096), nil
}

// ops are the operations on a credential and on what surrounds it.
func (w *shWorld) credOp(f *shForm, k, v int) shOp {
	c := f.cred
	pl := processor.WithDocumentLoader(w.loader)

	switch k {
	case 0:
		return shOp{name: "read", run: func() (string, error) { return credText(c), nil }}
	case 1:
		return shOp{name: "ToUniversalForm", run: func() (string, error) { return shJSON(c.ToUniversalForm()) }}
	case 2:
		return shOp{name: "CheckProof", run: func() (string, error) { return "", c.CheckProof(w.copts...) }}
	case 3:
		return shOp{name: "ParseCredential", run: func() (string, error) {
			x, err := verifiable.ParseCredential(f.raw, w.copts...)
			if err != nil {
				return "", err
			}

			return credText(x), nil
		}}
	case 4:
		return shOp{name: "JWTClaims", run: func() (string, error) { return shJSON(c.JWTClaims(v%2 == 0)) }}
	case 5:
		return shOp{name: "CreateSignedJWTVC", run: func() (string, error) {
			x, err := c.CreateSignedJWTVC(v%2 == 0, verifiable.EdDSA, w.creator, w.a.KID(0))
			if err != nil {
				return "", err
			}

			return credText(x), nil
		}}
	case 6:
		return shOp{name: "CreateSignedCOSEVC", run: func() (string, error) {
			x, err := c.CreateSignedCOSEVC(coseAlg(world.Ed), w.creator, w.a.KID(0))
			if err != nil {
				return "", err
			}

			return x.MarshalAsCWTLDHex()
		}}
	case 7:
		return shOp{name: "CreateUnsecuredJWTVC", run: func() (string, error) {
			x, err := c.CreateUnsecuredJWTVC(v%2 == 0)
			if err != nil {
				return "", err
			}

			return credText(x), nil
		}}
	case 8:
		return shOp{name: "MakeSDJWT", vary: true, run: func() (string, error) {
			o := []verifiable.MakeSDJWTOption{verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(w.names)}
			if v%2 == 0 {
				o = append(o, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5))
			}

			return sdText(c.MakeSDJWT(joseSigner{&world.Signer{K: w.a.Cur[0].Key, R: w.r}}, w.a.KID(0), o...))
		}}
	case 9:
		return shOp{name: "MarshalWithDisclosure", run: func() (string, error) {
			if !strings.HasPrefix(f.form, "sdjwt") {
				return "", nil
			}

			switch v % 3 {
			case 0:
				return c.MarshalWithDisclosure(verifiable.DiscloseAll())
			case 1:
				return c.MarshalWithDisclosure(verifiable.DiscloseGivenRequired(w.names))
			}

			return c.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable(w.names))
		}}
	case 10:
		return shOp{name: "CreateDisplayCredential", run: func() (string, error) {
			o := verifiable.DisplayAllDisclosures()
			if v%2 == 0 {
				o = verifiable.DisplayGivenDisclosures(w.names)
			}

			x, err := c.CreateDisplayCredential(o)
			if err != nil {
				return "", err
			}

			return credText(x), nil
		}}
	case 11:
		return shOp{name: "CreateDisplayCredentialMap", run: func() (string, error) {
			return shJSON(c.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures()))
		}}
	case 12:
		return shOp{name: "derive and change", run: func() (string, error) {
			var x *verifiable.Credential

			at := util.NewTime(time.Date(2024, 2, 3, 4, 5, 6, 0, time.UTC))

			switch v {
			case 5:
				x = c.WithModifiedIssued(at)
			case 6:
				x = c.WithModifiedExpired(at)
			case 7:
				x = c.WithModifiedValidFrom(at)
			case 8:
				x = c.WithModifiedValidUntil(at)
			case 9:
				x = c.WithModifiedRefreshService(&verifiable.TypedID{ID: "urn:rs:1", Type: "Refresh"})
			case 0:
				x = c.WithModifiedID("urn:other")
			case 1:
				x = c.WithModifiedSubject(w.subject)
			case 2:
				x = c.WithModifiedIssuer(&verifiable.Issuer{ID: "did:sim:issuer0", CustomFields: map[string]any{"name": "x"}})
			case 3:
				x = c.WithModifiedStatus(&verifiable.TypedID{ID: "urn:st:1", Type: "StatusList2021Entry"})
			case 4:
				x = c.WithModifiedContext([]string{world.V1, world.Sim})
			}

			x.SetCustomField("customField", fmt.Sprint("changed", v))

			return credText(x), nil
		}}
	case 13:
		return shOp{name: "derive and sign", run: func() (string, error) {
			x := c.WithModifiedID("urn:other")

			var err error
			if v%2 == 0 {
				err = x.AddLinkedDataProof(w.ldc, pl)
			} else {
				err = x.AddDataIntegrityProof(w.dic, w.dis)
			}

			if err != nil {
				return "", err
			}

			return credText(x), nil
		}}
	case 14:
		return shOp{name: "derive and reset proofs", run: func() (string, error) {
			x := c.WithModifiedID("urn:other")
			x.ResetProofs(nil)

			return credText(x), nil
		}}
	case 15:
		return shOp{name: "present", run: func() (string, error) {
			vp, err := verifiable.NewPresentation(verifiable.WithCredentials(c))
			if err != nil {
				return "", err
			}

			x, err := vp.CreateJWTVP([]string{"aud"}, verifiable.EdDSA, w.creator, w.a.KID(0), v%2 == 0)
			if err != nil {
				return "", err
			}

			return x.JWT, nil
		}}
	case 16:
		return shOp{name: "present signed", run: func() (string, error) {
			vp, err := verifiable.NewPresentation(verifiable.WithCredentials(c))
			if err != nil {
				return "", err
			}

			if v%2 == 0 {
				err = vp.AddLinkedDataProof(w.ldc, pl)
			} else {
				err = vp.AddDataIntegrityProof(w.dic, w.dis)
			}

			if err != nil {
				return "", err
			}

			return shJSON(vp, nil)
		}}
	case 17:
		return shOp{name: "ValidateCredential", run: func() (string, error) {
			if v%4 != 0 {
				return "", nil // slow
			}

			return "", c.ValidateCredential(w.copts...)
		}}
	}

	return shOp{name: "CWTClaims", run: func() (string, error) { return shJSON(c.CWTClaims()) }}
}

func (w *shWorld) vpOp(vp *verifiable.Presentation, raw []byte, k, v int) shOp {
	pl := processor.WithDocumentLoader(w.loader)

	switch k {
	case 0:
		return shOp{name: "vp read", run: func() (string, error) {
			s, err := shJSON(vp, nil)
			if err != nil {
				return "", err
			}

			for _, c := range vp.Credentials() {
				s += credText(c)
			}

			return s, nil
		}}
	case 1:
		return shOp{name: "vp MarshalledCredentials", run: func() (string, error) { return shJSON(vp.MarshalledCredentials()) }}
	case 2:
		return shOp{name: "vp JWTClaims", run: func() (string, error) { return shJSON(vp.JWTClaims([]string{"aud"}, v%2 == 0)) }}
	case 3:
		return shOp{name: "vp CreateJWTVP", run: func() (string, error) {
			x, err := vp.CreateJWTVP([]string{"aud"}, verifiable.EdDSA, w.creator, w.a.KID(0), v%2 == 0)
			if err != nil {
				return "", err
			}

			return x.JWT, nil
		}}
	case 4:
		return shOp{name: "vp clone, add and sign", run: func() (string, error) {
			x := vp.Clone()
			x.JWT = ""
			mine := w.forms[v%len(w.forms)].cred.WithModifiedID(fmt.Sprint("urn:mine:", v))
			x.AddCredentials(mine)
			x.CustomFields["extra"] = fmt.Sprint("mine ", v)
			x.ID = fmt.Sprint("urn:vp:mine", v)

			simrt.Step()

			var err error
			if v%2 == 0 {
				err = x.AddLinkedDataProof(w.ldc, pl)
			}

			if err != nil {
				return "", err
			}

			if x.Credentials()[len(x.Credentials())-1] != mine {
				return "", fmt.Errorf("the credential added to a copy of a presentation was replaced by another")
			}

			return shJSON(x, nil)
		}}
	case 5:
		return shOp{name: "vp CreateCWTVP", run: func() (string, error) {
			x, err := vp.CreateCWTVP([]string{"aud"}, coseAlg(world.Ed), w.creator, w.a.KID(0), v%2 == 0)
			if err != nil {
				return "", err
			}

			b, err := x.MarshalCBOR()

			return fmt.Sprintf("%x", b), err
		}}
	}

	return shOp{name: "ParsePresentation", run: func() (string, error) {
		x, err := verifiable.ParsePresentation(raw, w.popts...)
		if err != nil {
			return "", err
		}

		return shJSON(x, nil)
	}}
}

func (w *shWorld) pick() (op shOp, id string) {
	r := w.r

	if len(w.vps) > 0 && r.Chance(1, 4, "on-vp") {
		i, k, v := r.Choose(len(w.vps), "vp"), r.Choose(7, "vp-op"), r.Choose(4, "variant")

		return w.vpOp(w.vps[i], w.vpRaw[i], k, v), fmt.Sprintf("vp%d/%d/%d", i, k, v)
	}

	i, k, v := r.Choose(len(w.forms), "cred"), r.Choose(19, "op"), r.Choose(10, "variant")

	return w.credOp(w.forms[i], k, v), fmt.Sprintf("%s/%d/%d/%d", w.forms[i].form, i, k, v)
}

func (w *shWorld) dump() []string {
	var o []string

	for _, f := range w.forms {
		o = append(o, world.Dump(f.cred), string(f.raw))
	}

	for i, v := range w.vps {
		o = append(o, world.Dump(v), string(w.vpRaw[i]))
	}

	spare := ""

	for _, x := range w.copts[:cap(w.copts)][len(w.copts):] {
		if x != nil {
			spare += " credential option"
		}
	}

	for _, x := range w.popts[:cap(w.popts)][len(w.popts):] {
		if x != nil {
			spare += " presentation option"
		}
	}

	lc, dc := *w.ldc, *w.dic
	lc.ProofCreator = nil

	return append(o, spare, world.Dump(&lc), world.Dump(&dc), world.Dump(w.names[:cap(w.names)]), world.Dump(w.subject[:cap(w.subject)]))
}

func runShared(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{4, 0, 32}[r.Choose(3, "preempt")]})

	w := newSharedWorld(r)

	for i, n := 0, r.N(1, 3, "creds"); i < n && !r.Failed(); i++ {
		w.make()
	}

	if r.Failed() {
		return
	}

	for i, n := 0, r.Choose(3, "vps"); i < n && !r.Failed(); i++ {
		w.present()
	}

	type plan struct {
		op   shOp
		id   string
		want string
		err  string
	}

	var (
		tasks  []func()
		faults = r.Chance(1, 4, "faults")
		plans  [][]*plan
	)

	before := w.dump()

	for i, n := 0, r.N(2, 4, "tasks"); i < n; i++ {
		var ps []*plan

		for k, m := 0, r.N(1, 4, "ops"); k < m; k++ {
			p := &plan{}
			p.op, p.id = w.pick()

			// on its own
			if pan := core.Do(func() {
				s, err := p.op.run()
				p.want, p.err = s, fmt.Sprint(err)
			}); pan != "" {
				r.Violate("panic", core.PanicSite(pan), "%s (%s) panicked: %s", p.op.name, p.id, pan)

				return
			}

			ps = append(ps, p)
		}

		plans = append(plans, ps)
	}

	w.same(before, "operations one after the other")

	if r.Failed() {
		return
	}

	if faults {
		w.reg.Fail, w.reg.Slow, w.loader.Fail, w.loader.Slow = 100, 60, 30, 20
	}

	for i := range plans {
		tasks = append(tasks, func() {
			for _, p := range plans[i] {
				var got, gerr string

				if pan := core.Do(func() {
					s, err := p.op.run()
					got, gerr = s, fmt.Sprint(err)
				}); pan != "" {
					r.Violate("panic", core.PanicSite(pan), "%s (%s) panicked when run with others: %s", p.op.name, p.id, pan)

					return
				}

				form, _, _ := strings.Cut(p.id, "/")
				r.Eval("%s %s with %d others: err=%v", p.op.name, form, len(plans)-1, gerr != "<nil>")
				r.Logf("%s (%s): %.60s", p.op.name, p.id, gerr)

				switch {
				case faults && gerr != "<nil>":
					// may well be the fault
				case gerr != p.err:
					r.Violate("not-shareable", "error "+p.op.name, "%s (%s) ended with %s when run with others, and with %s on its own", p.op.name, p.id, gerr, p.err)
				case got != p.want && !(faults && p.err != "<nil>"):
					r.Violate("not-shareable", p.op.name, "%s (%s) gave something else when run with others:\n%s\nand on its own:\n%s", p.op.name, p.id, got, p.want)
				}
			}
		})
	}

	r.Parallel("user", tasks...)

	if !r.Failed() {
		w.same(before, "concurrent operations")
	}
}

// same says that using shared objects did not change them.
func (w *shWorld) same(before []string, when string) {
	for i, x := range w.dump() {
		if x == before[i] {
			continue
		}

		k := 0
		for k < len(x) && k < len(before[i]) && x[k] == before[i][k] {
			k++
		}

		k = max(0, k-200)
		what := "shared options"

		if i < 2*len(w.forms) {
			what = w.forms[i/2].form + " credential"
		} else if i < 2*(len(w.forms)+len(w.vps)) {
			what = "presentation"
		}

		w.r.Violate("changed", what, "%s changed the shared %s:\nbefore ...%.600s\nafter  ...%.600s", when, what, before[i][k:], x[k:])

		return
	}
}
