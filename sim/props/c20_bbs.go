package props

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C20", Title: "A derived BBS credential states only what its issuer signed and its frame asks for", Run: runBBS,
		Rule:    "one derivation or one verification of a delivered BBS-signed or derived credential, judged against the record of the statements each issuer signed (RDF canonical form, computed independently) and the DID document versions the registry answered with",
		Measure: "derivation route x contents x tampering x registry and context server faults x verdict",
		Real:    []string{"verifiable (BBS selective disclosure, JSON-LD credentials)", "presexch (limited disclosure and frames of BBS credentials)", "crypto-ext/verifiers/bbs", "proof/ldproofs/bbsblssignature2020 and bbsblssignatureproof2020", "proof/checker", "verifiable/lddocument", "vermethod", "bbs-signature-go"},
		Stub:    []string{"DID registry", "JSON-LD context server", "remote signer", "delivery channel", "clock"},
	})
}

const bbsCtx = "https://w3id.org/security/bbs/v1"

// bbsRec is one act of signing: what was stated, and the options.
type bbsRec struct {
	by, vm string
	key    *world.Key
	rows   map[string]bool // statements, blank nodes as the signer labelled them
	canon  string
	proof  world.J
	typ    string
}

type bbsCred struct {
	by    string
	doc   world.J
	recs  []*bbsRec
	obj   *verifiable.Credential
	blank bool // it states things of nodes without an id
}

// bbsDerived is a credential a holder derived.
type bbsDerived struct {
	src  *bbsCred
	doc  world.J
	recs []*bbsRec
	how  string
}

type bbsWorld struct {
	r       *core.Run
	reg     *world.Registry
	loader  *world.Loader
	issuers []*world.Actor
	evil    *world.Actor
	creds   []*bbsCred
	derived []*bbsDerived
	recs    []*bbsRec
	seq     int
	checker verifiable.CombinedProofChecker
	res     *vermethod.VDRResolver
}

const bbsVM = "Bls12381G2Key2020"

func (w *bbsWorld) actor(id string) *world.Actor {
	r := w.r
	kinds := []world.Kind{world.BBS}

	if r.Chance(1, 3, "two-keys") {
		kinds = append(kinds, world.BBS)
	}

	if r.Chance(1, 3, "ed-key") {
		kinds = append(kinds, world.Ed)
	}

	a := world.NewActor(r, w.reg, id, kinds...)

	for i := range a.Cur {
		if a.Cur[i].Key.Kind == world.BBS && r.Chance(4, 5, "vm-bytes") {
			a.Cur[i].Type = bbsVM
		}
	}

	a.Publish()

	return a
}

func bbsRows(canon string) []string {
	var o []string

	for _, l := range strings.Split(canon, "\n") {
		if strings.TrimSpace(l) != "" {
			o = append(o, l)
		}
	}

	return o
}

// unBlank takes the name a derived credential gives a node without an id back to a blank node label.
func unBlank(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := world.J{}
		for k, e := range x {
			o[k] = unBlank(e)
		}

		return o
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = unBlank(x[i])
		}

		return o
	case string:
		if strings.HasPrefix(x, "urn:bnid:_:") {
			return x[len("urn:bnid:"):]
		}
	}

	return v
}

// genVC makes a credential to be signed. blank: it has a node without an id.
func (w *bbsWorld) genVC(issuer string) (world.J, bool) {
	r := w.r
	v2 := r.Chance(1, 4, "v2")
	base := world.V1

	if v2 {
		base = world.V2
	}

	w.seq++

	ids := []string{"urn:uuid:00-%d", "https://issuer.example/creds/%d", "http://a.example/%d", ""}
	vc := world.J{"@context": []any{base, bbsCtx, world.Sim}, "type": []any{"VerifiableCredential", "SimCredential"}, "issuer": issuer}
	blank := false

	if id := ids[r.Choose(4, "id")]; id != "" {
		vc["id"] = fmt.Sprintf(id, w.seq)
	}

	if r.Chance(1, 4, "issuer-object") {
		vc["issuer"] = world.J{"id": issuer, "name": "Issuer Inc"}
	}

	from, until := "issuanceDate", "expirationDate"
	if v2 {
		from, until = "validFrom", "validUntil"
	}

	vc[from] = "2024-01-01T00:00:00Z"

	if r.Chance(1, 2, "expires") {
		vc[until] = "2030-01-01T00:00:00Z"
	}

	words := []string{"alpha", "beta", "gamma", "line\nbreak", "quote \" here", "ünïcode", "_:c14n0 text", "<urn:bnid:_:c14n1>", ""}

	subject := func(id string) world.J {
		s := world.J{"serial": fmt.Sprintf("s-%d", w.seq)}

		if id != "" {
			s["id"] = id
		} else {
			blank = true
		}

		if r.Chance(1, 3, "subject-type") {
			s["type"] = []any{"Person"}
		}

		for i, n := 0, r.Choose(5, "claims"); i < n; i++ {
			k := fmt.Sprintf("claim%d", i)

			switch r.Choose(7, "claim") {
			case 0, 1:
				k := words[r.Choose(len(words), "w")]
				s[fmt.Sprintf("claim%d", i)] = k
				blank = blank || strings.Contains(k, "_:c14n") // taken for a blank node
			case 2:
				s[k] = float64(r.Choose(100, "num"))
			case 3:
				s[k] = r.Chance(1, 2, "bool")
			case 4:
				s[k] = []any{"x", "y"}
			case 5:
				s[k] = world.J{"id": fmt.Sprintf("urn:obj:%d", r.Choose(3, "obj")), "inner": "in", "other": "out"}
			case 6:
				s[k] = world.J{"inner": "in", "other": "out"}
				blank = true
			}
		}

		return s
	}

	sid := []string{"did:sim:holder", "urn:zz:subject", "https://x.example/s", ""}[r.Choose(4, "sid")]
	vc["credentialSubject"] = subject(sid)

	if r.Chance(1, 8, "two-subjects") {
		vc["credentialSubject"] = []any{subject("did:sim:holder"), subject("urn:zz:second")}
	}

	if r.Chance(1, 5, "evidence") {
		vc["evidence"] = []any{world.J{"id": "urn:ev:1", "type": []any{"DocumentVerification"}, "verifier": "did:sim:v"}}
	}

	if r.Chance(1, 6, "custom") {
		vc["customField"] = "custom"
	}

	return vc, blank
}

func (w *bbsWorld) record(a *world.Actor, i int, doc world.J, typ string) *bbsRec {
	ps, ok := proofsOf(doc)
	if !ok {
		w.r.Violate("cannot-issue", "no-proof", "the signed document carries no proof: %s", world.Enc(doc))

		return nil
	}

	c, err := world.Canon(doc)
	if err != nil {
		panic(fmt.Sprintf("canon: %v\n%s", err, world.Enc(doc)))
	}

	rec := &bbsRec{by: a.DID, vm: a.KID(i), key: a.Cur[i].Key, canon: c, proof: ps[len(ps)-1], rows: map[string]bool{}, typ: typ}
	for _, l := range bbsRows(c) {
		rec.rows[l] = true
	}

	w.recs = append(w.recs, rec)

	return rec
}

// sign issues vc with proofs of a's keys.
func (w *bbsWorld) sign(a *world.Actor, vc world.J, blank bool) *bbsCred {
	r := w.r

	cred, err := verifiable.ParseCredential(world.Enc(vc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(world.NewLoader(r)),
		verifiable.WithCredDisableValidation())
	if err != nil {
		r.Violate("cannot-issue", "parse", "a valid credential was refused: %v\n%s", err, world.Enc(vc))

		return nil
	}

	out := &bbsCred{by: a.DID, blank: blank, obj: cred}
	hasBBS := false

	for k, n := 0, r.N(1, 2, "proofs"); k < n || !hasBBS; k++ {
		i := r.Choose(len(a.Cur), "key")
		if k >= n {
			i = 0 // a BBS key at last
			for i < len(a.Cur)-1 && a.Cur[i].Key.Kind != world.BBS {
				i++
			}

			if a.Cur[i].Key.Kind != world.BBS {
				return nil
			}
		}

		s := &world.Signer{K: a.Cur[i].Key, R: r}
		c := &verifiable.LinkedDataProofContext{SignatureType: "BbsBlsSignature2020", SignatureRepresentation: verifiable.SignatureProofValue,
			KeyType: s.K.Type, ProofCreator: creator.New(creator.WithLDProofType(bbsblssignature2020.New(), s)), VerificationMethod: a.KID(i)}

		if s.K.Kind != world.BBS {
			c.SignatureType = "Ed25519Signature2018"
			c.ProofCreator = world.Creator(s)
		} else {
			hasBBS = true
		}

		if r.Chance(1, 2, "created") {
			t := ldStamps[r.Choose(len(ldStamps), "stamp")]
			c.Created = &t
		}

		if r.Chance(1, 3, "purpose") {
			c.Purpose = []string{"assertionMethod", "authentication"}[r.Choose(2, "purpose")]
		}

		if err := cred.AddLinkedDataProof(c, processor.WithDocumentLoader(world.NewLoader(r))); err != nil {
			r.Violate("cannot-issue", "sign "+c.SignatureType, "a valid credential could not be signed with %s (%s): %v\n%s", c.SignatureType, s.K.Kind, err, world.Enc(vc))

			return nil
		}

		b, err := cred.MarshalJSON()
		if err != nil {
			r.Violate("cannot-issue", "marshal", "%v", err)

			return nil
		}

		out.doc = world.Dec(b)

		rec := w.record(a, i, out.doc, c.SignatureType)
		if rec == nil {
			return nil
		}

		out.recs = append(out.recs, rec)
	}

	w.creds = append(w.creds, out)

	return out
}

// genFrame picks what is to be disclosed of doc: the frame, and the contents asked for.
func (w *bbsWorld) genFrame(doc world.J) (frame, want world.J, exact bool) {
	r := w.r
	want = world.J{"@context": doc["@context"], "type": doc["type"]}
	frame = world.J{"@context": doc["@context"], "type": doc["type"], "@explicit": true}

	if doc["id"] != nil {
		want["id"] = doc["id"]

		if r.Chance(1, 6, "frame-id") {
			frame["id"] = doc["id"]
		}
	}

	for _, k := range world.Keys(doc) {
		switch k {
		case "@context", "type", "id", "proof", "credentialSubject":
			continue
		case "issuer", "issuanceDate", "validFrom":
			if r.Chance(1, 25, "mandatory-hidden") {
				continue
			}
		default:
			if !r.Chance(1, 2, "reveal "+k) {
				continue
			}
		}

		frame[k] = world.J{}
		want[k] = doc[k]
	}

	subs, multi := doc["credentialSubject"].([]any)
	if !multi {
		subs = []any{doc["credentialSubject"]}
	}

	if r.Chance(1, 12, "whole-subject") {
		frame["credentialSubject"] = world.J{}
		want["credentialSubject"] = world.Clone(doc["credentialSubject"])

		return frame, want, true
	}

	sf := world.J{"@explicit": true}

	var keep []any

	for _, s := range subs {
		s := s.(map[string]any)
		o := world.J{}

		for _, k := range world.Keys(s) {
			if k == "id" || k == "type" {
				o[k] = s[k]

				continue
			}

			if _, ok := sf[k]; !ok && r.Chance(1, 2, "reveal "+k) {
				sf[k] = world.J{}

				if _, ok := s[k].(map[string]any); ok && len(subs) == 1 && r.Chance(1, 2, "part of "+k) {
					sf[k] = world.J{"@explicit": true, "inner": world.J{}}
				}
			}
		}

		keep = append(keep, o)
	}

	if len(sf) > 1 && r.Chance(1, 8, "absent") { // a frame asking for nothing that is there selects nothing
		sf["notThere"] = world.J{}
	}

	exact = true // a frame selects the objects that have all it asks for

	for i, s := range subs {
		o := keep[i].(map[string]any)

		for k, f := range sf {
			v, ok := s.(map[string]any)[k]
			if !ok || strings.HasPrefix(k, "@") {
				continue
			}

			v = world.Clone(v)

			if m, ok := v.(map[string]any); ok && f.(map[string]any)["@explicit"] != nil {
				delete(m, "other")
			}

			o[k] = v
		}

		for k := range sf {
			if _, ok := s.(map[string]any)[k]; !ok && !strings.HasPrefix(k, "@") {
				exact = false
			}
		}
	}

	frame["credentialSubject"] = sf
	want["credentialSubject"] = keep

	return frame, want, exact
}

// bbsCanon is doc's canonical form without its proof, nodes without an id being blank nodes.
func bbsCanon(doc world.J) (string, error) {
	d, _ := unBlank(world.Clone(doc)).(map[string]any)
	delete(d, "jwt")

	return world.Canon(d)
}

// sharedIDs says whether some id of doc names several objects: framing shows their claims together.
func sharedIDs(doc world.J) bool {
	seen := map[string]bool{}
	shared := false

	var visit func(v any)

	visit = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			if id := str(x["id"]); id != "" && len(x) > 1 {
				shared = shared || seen[id]
				seen[id] = true
			}

			for _, k := range world.Keys(x) {
				if k != "proof" {
					visit(x[k])
				}
			}
		case []any:
			for _, e := range x {
				visit(e)
			}
		}
	}

	visit(doc)

	return shared
}

// blankLabel is the number of a blank node at the start of a row or before its end; literals may hold anything.
var blankLabel = regexp.MustCompile(`^_:c14n[0-9]+( )|( )_:c14n[0-9]+ \.$`)

func (w *bbsWorld) nonce() []byte {
	return [][]byte{[]byte("nonce"), {0, 1, 2, 255}, nil, bytes.Repeat([]byte("n"), 200)}[w.r.Choose(4, "nonce")]
}

// derive has a holder derive a credential.
func (w *bbsWorld) derive() {
	r := w.r
	if len(w.creds) == 0 {
		return
	}

	src := w.creds[r.Choose(len(w.creds), "which")]
	obj := src.obj

	if r.Chance(1, 2, "received") {
		var err error

		obj, err = verifiable.ParseCredential(world.Enc(src.doc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(world.NewLoader(r)),
			verifiable.WithCredDisableValidation())
		if err != nil {
			r.Violate("cannot-issue", "reparse", "a signed credential was refused: %v\n%s", err, world.Enc(src.doc))

			return
		}
	}

	before, err := obj.MarshalJSON()
	if err != nil {
		r.Violate("cannot-issue", "marshal", "%v", err)

		return
	}

	frame, want, exact := w.genFrame(src.doc)
	route := r.Choose(6, "route")
	how := [...]string{"credential", "credential", "document", "definition frame", "limited", "credential"}[route]
	frame0 := world.CloneJ(frame)
	nonce := w.nonce()
	pc := &verifiable.BBSProofCreator{ProofDerivation: world.BBSDerivation{}, VerificationMethodResolver: w.res}
	sentinel := verifiable.WithNoCustomSchemaCheck()
	all := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.loader), sentinel}
	popts := append(make([]processor.Opts, 0, 4), processor.WithDocumentLoader(w.loader))
	from, ctxFail := len(w.reg.Log), w.loader.Failed

	var (
		out    *verifiable.Credential
		outDoc world.J
		limits []string
	)

	p := core.Do(func() {
		switch how {
		case "credential":
			out, err = obj.GenerateBBSSelectiveDisclosure(frame, nonce, pc, all[:1]...)
		case "document":
			doc := world.CloneJ(src.doc)
			d0 := world.CloneJ(doc)
			outDoc, err = verifiable.BBSSelectiveDisclosure(doc, frame, nonce, pc, popts...)

			if !world.Same(doc, d0) {
				r.Violate("source-changed", "document", "deriving changed the source document:\nbefore %s\nafter  %s", world.Enc(d0), world.Enc(doc))
			}
		default:
			pd := &presexch.PresentationDefinition{ID: "d", InputDescriptors: []*presexch.InputDescriptor{{ID: "x",
				Schema: []*presexch.Schema{{URI: w.schemaOf(src.doc)}}}}}
			nonce = nil

			if how == "limited" {
				limits = w.limit(pd.InputDescriptors[0], src.doc)
			} else {
				pd.Frame = frame // a definition with a frame has no schemas
				pd.InputDescriptors[0].Schema = nil
				pd.InputDescriptors[0].Constraints = &presexch.Constraints{}
			}

			var vp *verifiable.Presentation

			vp, err = pd.CreateVP([]*verifiable.Credential{obj}, w.loader, presexch.WithSelectiveDisclosureApply(),
				presexch.WithSDCredentialOptions(all[:1]...), presexch.WithSDBBSProofCreator(pc))
			if err == nil {
				if len(vp.Credentials()) != 1 {
					err = fmt.Errorf("%d credentials", len(vp.Credentials()))
				} else {
					out = vp.Credentials()[0]
				}
			}
		}
	})
	if p != "" {
		r.Violate("panic", core.PanicSite(p), "deriving (%s) panicked: %s\nsource %s\nframe %s", how, p, before, world.Enc(frame0))

		return
	}

	res := w.reg.Window(from)

	if after, e := obj.MarshalJSON(); e != nil || !world.Same(world.Dec(before), world.Dec(after)) {
		r.Violate("source-changed", "credential", "deriving (%s) changed the source credential (%v):\nbefore %s\nafter  %s", how, e, before, after)
	}

	if !world.Same(frame, frame0) {
		r.Violate("source-changed", "frame", "deriving (%s) changed the frame:\nbefore %s\nafter  %s", how, world.Enc(frame0), world.Enc(frame))
	}

	if reflect.ValueOf(all[1]).Pointer() != reflect.ValueOf(sentinel).Pointer() || popts[:2][1] != nil {
		r.Violate("source-changed", "options", "deriving (%s) wrote into the options it was given", how)
	}

	var bbsRecs []*bbsRec

	for _, x := range src.recs {
		if x.typ == "BbsBlsSignature2020" {
			bbsRecs = append(bbsRecs, x)
		}
	}

	if err != nil {
		r.Logf("derive %s: %v", how, err)
		r.Eval("derive %s refused blank=%v reg=%d ctx=%v", how, src.blank, len(res), w.loader.Failed > ctxFail)

		if out != nil || outDoc != nil {
			r.Violate("derived-despite-error", how, "deriving failed (%v) yet gave a credential", err)
		}

		subject, _ := want["credentialSubject"].(map[string]any)
		bare := len(subject) < 2 && want["validFrom"] != nil // its subject would be a string, which version 2 does not allow

		if list, _ := want["credentialSubject"].([]any); list != nil { // nor does a list of strings conform
			for _, e := range list {
				s, _ := e.(map[string]any)
				bare = bare || len(s) < 2
			}
		}

		mandatory := !bare && exact && want["issuer"] != nil && (want["issuanceDate"] != nil || want["validFrom"] != nil)

		if how == "limited" {
			full, _ := src.doc["credentialSubject"].(map[string]any)
			mandatory = src.doc["validFrom"] == nil

			for _, k := range limits {
				mandatory = mandatory || full[k] != nil
			}
		}

		if !src.blank && !sharedIDs(src.doc) && w.loader.Failed == ctxFail && (mandatory || how == "document") && len(res) > 0 &&
			w.allListed(bbsRecs, src.by, res) {
			r.Violate("cannot-derive", how, "a credential could not be derived from a genuine one, its keys listed by the registry: %v\nsource %s\nframe %s limits %v", err, before, world.Enc(frame0), limits)
		}

		return
	}

	if out != nil {
		b, e := out.MarshalJSON()
		if e != nil {
			r.Violate("cannot-derive", "marshal", "a derived credential could not be marshalled: %v", e)

			return
		}

		outDoc = world.Dec(b)
	} else {
		outDoc = asJSON(outDoc)
	}

	r.Logf("derive %s: done", how)
	r.Eval("derive %s done blank=%v n=%d", how, src.blank, len(bbsRecs))

	d := &bbsDerived{src: src, doc: outDoc, recs: bbsRecs, how: how}
	ctx := fmt.Sprintf("source %s\nframe %s limits %v\nderived %s", before, world.Enc(frame0), limits, world.Enc(outDoc))

	// the proofs
	ps, _ := proofsOf(outDoc)
	if len(ps) != len(bbsRecs) {
		r.Violate("proofs", how, "%d proofs were derived from %d BBS proofs\n%s", len(ps), len(bbsRecs), ctx)

		return
	}

	for i, p := range ps {
		q := world.CloneJ(bbsRecs[i].proof)
		q["type"] = "BbsBlsSignatureProof2020"

		if how == "limited" { // its nonce is its own
			if str(p["nonce"]) == "" {
				r.Violate("proofs", "nonce", "a derived proof has no nonce\n%s", ctx)
			}
		} else if n, e := base64.StdEncoding.DecodeString(str(p["nonce"])); e != nil || !bytes.Equal(n, nonce) {
			r.Violate("proofs", "nonce", "a derived proof has nonce %q, %q was asked for\n%s", p["nonce"], nonce, ctx)
		}

		if !sameProofOptions(p, q) {
			r.Violate("proofs", "options", "a derived proof's options differ from those of the proof it is derived from\nwas %s\n%s", world.Enc(q), ctx)
		}
	}

	// it states what the issuer signed
	if key, why := w.authentic(outDoc, src.by, nil); why != "" {
		r.Violate("unfaithful", how+" "+key, "a credential was derived but %s\n%s", why, ctx)

		return
	}

	// and what was asked for
	if how == "limited" {
		w.checkLimited(outDoc, src.doc, limits, ctx)
	} else if !sharedIDs(src.doc) {
		got, e1 := bbsCanon(outDoc)
		exp, e2 := bbsCanon(want)
		rule := ""

		if e1 != nil || e2 != nil {
			r.Violate("disclosure", "not-ld", "canonical forms: %v %v\n%s", e1, e2, ctx)
		} else if got != exp {
			rule = "hides what was asked for"
			// blank nodes are numbered anew
			rule = "hides what was asked for"
			left := map[string]int{}
			n := 0

			for _, l := range bbsRows(exp) {
				left[blankLabel.ReplaceAllString(l, "_:c14n$1$2")]++
				n++
			}

			for _, l := range bbsRows(got) {
				l = blankLabel.ReplaceAllString(l, "_:c14n$1$2")
				if left[l]--; left[l] < 0 {
					rule = "discloses what was not asked for"
				}

				n--
			}

			if rule == "hides what was asked for" && (!exact || n == 0 || src.blank) {
				rule = ""
			}
		}

		if rule != "" {
			r.Violate("disclosure", rule, "a derived credential %s\ngot\n%s\nwant\n%s\n%s", rule, got, exp, ctx)
		}
	}

	if r.Failed() {
		return
	}

	w.derived = append(w.derived, d)

	// it verifies
	w.verify(&bbsDelivery{doc: world.CloneJ(outDoc), how: "derived " + how, clean: true, recs: bbsRecs, by: src.by})
}

func (w *bbsWorld) schemaOf(doc world.J) string {
	return "https://www.w3.org/2018/credentials#VerifiableCredential"
}

// limit makes a descriptor ask for some of doc's claims only.
func (w *bbsWorld) limit(d *presexch.InputDescriptor, doc world.J) []string {
	r := w.r
	c := &presexch.Constraints{}
	pr := presexch.Required
	c.LimitDisclosure = &pr

	var out []string

	s, _ := doc["credentialSubject"].(map[string]any)

	for _, k := range world.Keys(s) {
		if strings.HasPrefix(k, "claim") || k == "serial" {
			if len(out) == 0 || r.Chance(1, 3, "ask "+k) {
				out = append(out, k)
				c.Fields = append(c.Fields, &presexch.Field{Path: []string{"$.credentialSubject." + k}})
			}
		}
	}

	if len(out) == 0 { // several subjects
		c.Fields = append(c.Fields, &presexch.Field{Path: []string{"$.issuer"}})
	}

	d.Constraints = c

	return out
}

func (w *bbsWorld) checkLimited(got, src world.J, limits []string, ctx string) {
	if sharedIDs(src) {
		return
	}

	s, ok := src["credentialSubject"].(map[string]any)
	g, ok2 := got["credentialSubject"].(map[string]any)

	if !ok || !ok2 {
		return
	}

	ask := map[string]bool{"id": true, "type": true}
	for _, k := range limits {
		ask[k] = true
	}

	for _, k := range world.Keys(g) {
		if !ask[k] && g[k] != nil {
			w.r.Violate("disclosure", "limited discloses more", "the claim %s was disclosed and not asked for\n%s", k, ctx)
		}
	}

	for _, k := range limits {
		// an object without an id in one without an id is lost by did-go's framing
		if _, obj := s[k].(map[string]any); obj && str(s["id"]) == "" {
			continue
		}

		if v, ok := s[k]; ok && g[k] == nil && v != nil {
			w.r.Violate("disclosure", "limited hides", "the claim %s was asked for and is not there\n%s", k, ctx)
		}
	}

	if got["customField"] != nil || got["evidence"] != nil {
		w.r.Violate("disclosure", "limited discloses more", "members nobody asked for were disclosed\n%s", ctx)
	}
}

func (w *bbsWorld) allListed(recs []*bbsRec, by string, res []world.Resolution) bool {
	if len(res) == 0 {
		return false
	}

	for _, x := range res {
		if x.DID != by || x.Version == nil {
			return false
		}

		for _, rec := range recs {
			if !x.Version.Lists(rec.vm, rec.key) {
				return false
			}
		}
	}

	return true
}

// authentic says what is wrong with accepting doc as stated by issuer, "" if nothing. res nil: whatever key is published.
func (w *bbsWorld) authentic(doc world.J, issuer string, res []world.Resolution) (key, why string) {
	c, err := bbsCanon(doc)
	if err != nil {
		return "not-ld", fmt.Sprintf("it is not a JSON-LD document: %v", err)
	}

	// a derived credential's own labels are those of the signed one: compare with them, not with labels of its own
	d := world.CloneJ(doc)
	delete(d, "jwt")

	own, err := world.Canon(d)
	if err != nil {
		return "not-ld", fmt.Sprintf("it is not a JSON-LD document: %v", err)
	}

	var rows []string
	for _, l := range bbsRows(own) {
		rows = append(rows, bnid(l))
	}

	ps, ok := proofsOf(doc)
	if !ok {
		return "no-proof", "it carries no proof"
	}

	for i, p := range ps {
		var rec *bbsRec

		sameDoc, others := false, false
		missing := ""

		for _, x := range w.recs {
			q := x.proof
			if x.typ == "BbsBlsSignature2020" && str(p["type"]) == "BbsBlsSignatureProof2020" {
				q = world.CloneJ(q)
				q["type"] = p["type"]
			}

			so := sameProofOptions(q, p)
			sd := x.canon == c

			if str(p["type"]) == "BbsBlsSignatureProof2020" {
				sd = x.typ == "BbsBlsSignature2020"

				for _, l := range rows {
					if !x.rows[l] {
						sd = false

						if so && x.by == issuer {
							missing = l
						}
					}
				}
			}

			if sd && so && x.by == issuer && (rec == nil || listedBBS(res, issuer, x)) {
				rec = x
			}

			sameDoc = sameDoc || sd && x.by == issuer
			others = others || sd && so
		}

		switch {
		case rec == nil && others:
			return "other-signer", fmt.Sprintf("proof %d is somebody else's, not of its stated issuer %s", i, issuer)
		case rec == nil && sameDoc:
			return "options-changed", fmt.Sprintf("its stated issuer %s never made proof %d with these options: %s", issuer, i, world.Enc(p))
		case rec == nil:
			return "not-signed", fmt.Sprintf("its stated issuer %s never signed what it states (proof %d) %s", issuer, i, missing)
		case res != nil && !listedBBS(res, issuer, rec):
			return "key-not-listed", fmt.Sprintf("the registry's answers never listed the key %s of proof %d for a purpose other than key agreement", rec.vm, i)
		}
	}

	return "", ""
}

// bnid writes the names of nodes without an id as the labels they had.
func bnid(l string) string {
	const mark = "<urn:bnid:_:c14n"

	for {
		i := strings.Index(l, mark)
		if i < 0 || strings.Contains(l[:i], `"`) { // in a literal it is text
			return l
		}

		j := strings.Index(l[i:], ">")
		if j < 0 {
			return l
		}

		l = l[:i] + l[i+len("<urn:bnid:"):i+j] + l[i+j+1:]
	}
}

func listedBBS(res []world.Resolution, did string, rec *bbsRec) bool {
	for _, x := range res {
		if x.DID == did && x.Version.Lists(rec.vm, rec.key) {
			return true
		}
	}

	return false
}

type bbsDelivery struct {
	doc   world.J
	how   string
	clean bool
	recs  []*bbsRec
	by    string
}

// addStatement puts a statement nobody signed into doc.
func (w *bbsWorld) addStatement(doc world.J) (string, int) {
	r := w.r
	sub, _ := doc["credentialSubject"].(map[string]any)

	switch r.Choose(6, "statement") {
	case 0:
		doc["termsOfUse"] = world.J{"id": "urn:zz:1", "type": "https://zz.example/AllowAll"}

		return "terms of use", 2
	case 1:
		if sub != nil {
			sub["zzClaim"] = "EVIL"
		} else {
			doc["zzClaim"] = "EVIL"
		}

		return "claim", 1
	case 2:
		doc["zzField"] = "EVIL"

		return "field", 1
	case 3:
		if sub != nil {
			sub["zzObject"] = world.J{"id": "urn:zzz:1", "admin": "yes"}
		} else {
			doc["zzObject"] = world.J{"id": "urn:zzz:1", "admin": "yes"}
		}

		return "object", 2
	case 4:
		doc["credentialSubject"] = []any{doc["credentialSubject"], world.J{"id": "urn:zzz:subject", "serial": "EVIL"}}

		return "subject", 2
	}

	if sub != nil {
		sub["aaClaim"] = "EVIL"
	} else {
		doc["aaClaim"] = "EVIL"
	}

	return "first claim", 1
}

func (w *bbsWorld) deliver() *bbsDelivery {
	r := w.r

	if len(w.creds) == 0 {
		return nil
	}

	d := &bbsDelivery{}
	isDerived := len(w.derived) > 0 && r.Chance(3, 4, "derived")

	if isDerived {
		x := w.derived[r.Choose(len(w.derived), "which")]
		d.doc, d.recs, d.by = world.CloneJ(x.doc), x.recs, x.src.by
	} else {
		x := w.creds[r.Choose(len(w.creds), "which")]
		d.doc, d.recs, d.by = world.CloneJ(x.doc), x.recs, x.by
	}

	ps, ok := proofsOf(d.doc)
	if !ok {
		return nil
	}

	set := func(ps []world.J) {
		a := make([]any, len(ps))
		for i := range ps {
			a[i] = ps[i]
		}

		d.doc["proof"] = a
	}

	set(ps)

	kind := r.Choose(13, "delivery")
	if kind > 1 {
		r.FaultFired("message-tampered")
	}

	one := ps[r.Choose(len(ps), "p")]

	switch kind {
	case 0:
		d.how, d.clean = "clean", true
	case 1:
		k := r.Choose(len(ps), "keep")
		ps = ps[k : k+1]

		if len(d.recs) > k {
			d.recs = d.recs[k : k+1]
		}

		set(ps)

		d.how, d.clean = "one proof kept", true
	case 2, 3:
		what, _ := w.addStatement(d.doc)
		d.how = "statement added: " + what
	case 4:
		d.how = "document: " + world.Mutate(r, d.doc, func(p string) bool { return strings.HasPrefix(p, "/proof") })
	case 5:
		d.how = "proof: " + world.Mutate(r, one, nil)
	case 6: // a proof saying how many statements there are, edited
		b, err := base64.StdEncoding.DecodeString(str(one["proofValue"]))
		if err != nil || len(b) < 3 {
			return nil
		}

		n := int(binary.BigEndian.Uint16(b))
		vec := b[2:]

		if len(vec) > n/8+1 {
			vec = vec[:n/8+1]
		}

		switch r.Choose(4, "payload") {
		case 0: // positions beyond the signed statements
			what, k := w.addStatement(d.doc)
			for i := n; i < n+k && i < 8*len(vec); i++ {
				vec[len(vec)-1-i/8] |= 1 << (i % 8)
			}

			d.how = "positions beyond the signed statements: " + what
		case 1:
			i := r.Choose(8*len(vec), "bit")
			vec[len(vec)-1-i/8] ^= 1 << (i % 8)
			d.how = "positions changed"
		case 2:
			binary.BigEndian.PutUint16(b, uint16([]int{0, 1, n - 1, n + 1, n + 8, 300}[r.Choose(6, "n")]))
			d.how = "count changed"
		case 3:
			b = b[:r.Choose(len(b)+1, "cut")]
			d.how = "proof cut"
		}

		one["proofValue"] = base64.StdEncoding.EncodeToString(b)
	case 7: // bytes of the proof
		b, err := base64.StdEncoding.DecodeString(str(one["proofValue"]))
		if err != nil || len(b) == 0 {
			return nil
		}

		switch r.Choose(3, "bytes") {
		case 0:
			b[r.Choose(len(b), "at")] ^= 1 << r.Choose(8, "bit")
		case 1:
			at := r.Choose(len(b), "at")
			for i := at; i < at+4 && i < len(b); i++ {
				b[i] = []byte{0, 255, 127, 128}[r.Choose(4, "v")]
			}
		case 2:
			at := r.Choose(len(b), "at")
			b = append(b[:at:at], b[min(len(b), at+r.Choose(120, "len")):]...)
		}

		one["proofValue"] = base64.StdEncoding.EncodeToString(b)
		d.how = "proof bytes changed"
	case 8: // options
		switch r.Choose(7, "opt") {
		case 0:
			one["nonce"] = []any{"b3RoZXI=", "", nil, "bm9uY2U=", 7}[r.Choose(5, "v")]
		case 1:
			one["created"] = "2025-01-01T00:00:00Z"
		case 2:
			one["proofPurpose"] = []any{"authentication", "assertionMethod", "", nil}[r.Choose(4, "v")]
		case 3:
			one["verificationMethod"] = w.evil.KID(0)
		case 4:
			one["type"] = []string{"BbsBlsSignature2020", "BbsBlsSignatureProof2020", "Ed25519Signature2018", "https://w3id.org/security#BbsBlsSignatureProof2020"}[r.Choose(4, "v")]
		case 5:
			one["domain"] = "example.com"
		case 6:
			one["challenge"] = "ch"
		}

		d.how = "proof option changed"
	case 9: // proofs of another credential
		var o world.J

		if len(w.derived) > 0 && r.Chance(2, 3, "derived") {
			o = w.derived[r.Choose(len(w.derived), "other")].doc
		} else {
			o = w.creds[r.Choose(len(w.creds), "other")].doc
		}

		op, _ := proofsOf(world.CloneJ(o))

		switch r.Choose(3, "how") {
		case 0:
			set(op)
		case 1:
			set(append(ps, op...))
		case 2: // its statements too
			set(op)

			for _, k := range []string{"credentialSubject", "issuer", "id"}[:r.N(1, 3, "members")] {
				if o[k] != nil {
					d.doc[k] = world.Clone(o[k])
				}
			}
		}

		d.how = "proof of another credential"
	case 10: // a claim of one derived credential moved to another
		if len(w.derived) == 0 {
			return nil
		}

		o := w.derived[r.Choose(len(w.derived), "other")].doc
		s, ok := d.doc["credentialSubject"].(map[string]any)
		t, ok2 := o["credentialSubject"].(map[string]any)

		if !ok || !ok2 {
			return nil
		}

		for _, k := range world.Keys(t) {
			if k != "id" && k != "type" {
				s[k] = world.Clone(t[k])
			}
		}

		d.how = "claims of another credential added"
	case 11: // a claim removed
		s, ok := d.doc["credentialSubject"].(map[string]any)
		if !ok {
			return nil
		}

		ks := world.Keys(s)
		delete(s, ks[r.Choose(len(ks), "k")])

		d.how = "claim removed"
	case 12: // the attacker derives from its own signature and names the issuer
		vc := world.CloneJ(d.doc)
		delete(vc, "proof")

		what, _ := w.addStatement(vc)
		x := w.forge(vc)

		if x == nil {
			return nil
		}

		d.doc = x
		d.how = "derived from the attacker's signature: " + what
	}

	d.doc = world.Dec(world.Enc(d.doc))

	return d
}

// forge has the attacker sign doc under the name of one of the issuers and derive from it.
func (w *bbsWorld) forge(doc world.J) world.J {
	r := w.r
	s := &world.Signer{K: w.evil.Cur[0].Key, R: r}
	vm := []string{w.evil.KID(0), w.issuers[0].KID(0), w.evil.DID + "#" + w.issuers[0].Cur[0].Fragment}[r.Choose(3, "vm")]

	var out world.J

	core.Do(func() {
		cred, err := verifiable.ParseCredential(world.Enc(doc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(world.NewLoader(r)),
			verifiable.WithCredDisableValidation())
		if err != nil {
			return
		}

		if err := cred.AddLinkedDataProof(&verifiable.LinkedDataProofContext{SignatureType: "BbsBlsSignature2020", SignatureRepresentation: verifiable.SignatureProofValue,
			KeyType: s.K.Type, ProofCreator: creator.New(creator.WithLDProofType(bbsblssignature2020.New(), s)), VerificationMethod: vm},
			processor.WithDocumentLoader(world.NewLoader(r))); err != nil {
			return
		}

		b, err := cred.MarshalJSON()
		if err != nil {
			return
		}

		out = world.Dec(b)

		if r.Chance(1, 2, "derive") {
			frame := world.J{"@context": out["@context"], "type": out["type"]}

			d, err := verifiable.BBSSelectiveDisclosure(out, frame, []byte("n"), &verifiable.BBSProofCreator{ProofDerivation: world.BBSDerivation{},
				VerificationMethodResolver: fixedVM{&vermethod.VerificationMethod{Type: bbsVM, Value: s.K.Raw}}}, processor.WithDocumentLoader(world.NewLoader(r)))
			if err == nil {
				out = asJSON(d)
			}
		}
	})

	return out
}

type fixedVM struct{ vm *vermethod.VerificationMethod }

func (f fixedVM) ResolveVerificationMethod(string, string) (*vermethod.VerificationMethod, error) {
	return f.vm, nil
}

func (w *bbsWorld) verify(d *bbsDelivery) {
	r := w.r
	raw := world.Enc(d.doc)
	from, ctxFail := len(w.reg.Log), w.loader.Failed
	mode := r.Choose(3, "mode")
	issuer := ""

	var (
		cred *verifiable.Credential
		err  error
	)

	p := core.Do(func() {
		opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithDisabledRelatedResourceCheck()}
		if mode != 1 {
			opts = append(opts, verifiable.WithCredDisableValidation())
		}

		if mode == 2 {
			cred, err = verifiable.ParseCredential(raw, append(opts, verifiable.WithDisabledProofCheck())...)
			if err == nil {
				err = cred.CheckProof(verifiable.WithProofChecker(w.checker), verifiable.WithJSONLDDocumentLoader(w.loader))
			}
		} else {
			cred, err = verifiable.ParseCredential(raw, append(opts, verifiable.WithProofChecker(w.checker))...)
		}

		if err == nil && cred.Contents().Issuer != nil {
			issuer = cred.Contents().Issuer.ID
		}
	})
	if p != "" {
		r.Violate("panic", core.PanicSite(p), "verification panicked: %s\ninput (%s): %s", p, d.how, raw)

		return
	}

	res := w.reg.Window(from)
	kind := d.how

	if i := strings.IndexAny(kind, ":"); i > 0 {
		kind = kind[:i]
	}

	if err != nil {
		r.Logf("verify %s mode %d: refused: %v", d.how, mode, err)
		r.Eval("verify %s mode=%d refused reg=%d ctx=%v", kind, mode, len(res), w.loader.Failed > ctxFail)

		subject, unfit := d.doc["credentialSubject"], false
		if _, bare := subject.(string); bare && d.doc["validFrom"] != nil {
			subject = nil // version 2 does not allow it
		}

		if list, _ := subject.([]any); list != nil {
			for _, e := range list {
				if _, bare := e.(string); bare {
					subject, unfit = nil, true // neither version does
				}
			}
		}

		if d.clean && w.loader.Failed == ctxFail && d.doc["issuer"] != nil && !unfit && (mode != 1 || subject != nil) && (mode != 1 || d.doc["issuanceDate"] != nil || d.doc["validFrom"] != nil) {
			if len(res) == 0 {
				r.Violate("false-reject", "no lookup", "a genuine credential was refused before the registry was asked: %v\ninput (%s): %s", err, d.how, raw)
			} else if w.allListed(d.recs, d.by, res) {
				r.Violate("false-reject", "genuine", "a genuine credential, its keys listed by the registry, was refused: %v\ninput (%s): %s", err, d.how, raw)
			}
		}

		return
	}

	r.Logf("verify %s mode %d: accepted", d.how, mode)
	r.Eval("verify %s mode=%d accepted", kind, mode)

	if res == nil {
		res = []world.Resolution{}
	}

	if key, why := w.authentic(d.doc, issuer, res); why != "" {
		r.Violate("accepted-unauthentic", key, "a credential was accepted but %s\ninput (%s): %s", why, d.how, raw)
	}
}

func runBBS(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 0, 64}[r.Choose(3, "preempt")]})

	w := &bbsWorld{r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r)}
	w.issuers = []*world.Actor{w.actor("did:sim:issuer0"), w.actor("did:sim:issuer1")}
	w.evil = w.actor(evilDID(r, w.issuers[0].DID))

	if r.Chance(1, 3, "evil-doc") {
		e := w.evil.Cur[0]
		e.ID = w.issuers[0].KID(0)
		w.evil.Cur = append(w.evil.Cur, e)
		w.evil.Publish()
	}

	w.res = vermethod.NewVDRResolver(w.reg)
	w.checker = defaults.NewDefaultProofChecker(w.res)

	if r.Chance(1, 3, "registry-faults") {
		w.reg.Fail, w.reg.Stale, w.reg.Slow = 60, 200, 60
	}

	if r.Chance(1, 4, "loader-faults") {
		w.loader.Fail, w.loader.Slow = 10, 10
	}

	issue := func(a *world.Actor) {
		vc, blank := w.genVC(a.DID)
		w.sign(a, vc, blank)
	}

	issue(w.issuers[0])

	if r.Failed() {
		return
	}

	tasks := []func(){func() {
		for op := 0; op < 2 && !r.Failed(); op++ {
			a := w.issuers[r.Choose(len(w.issuers), "who")]

			if r.Chance(1, 3, "rotate") {
				a.Rotate()
			} else {
				issue(a)
			}

			r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
		}
	}}

	for i, n := 0, r.N(1, 2, "holders"); i < n; i++ {
		tasks = append(tasks, func() {
			for op := 0; op < 2 && !r.Failed(); op++ {
				w.derive()
				r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
			}
		})
	}

	tasks = append(tasks, func() {
		for op := 0; op < 4 && !r.Failed(); op++ {
			if d := w.deliver(); d != nil {
				w.verify(d)
			}

			r.Sleep(time.Duration(r.Choose(40, "pause")) * time.Second)
		}
	})

	r.Parallel("actor", tasks...)
}
