package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C17", Title: "A presentation submission is accepted only for credentials that were presented", Run: runSubmission, Race: true,
		Rule:    "one match of one delivered submission (one or more presentations), judged against the credentials the issuers really issued, the delivered bytes and an independent evaluation of the definition",
		Measure: "presentation forms x number x submission place x delivery tampering x schema option x loader or registry fault x verdict",
		Real:    []string{"presexch (Match, filters, submission creation)", "verifiable (presentations, credentials of every form)", "jwt", "proof/checker", "vermethod", "sdjwt/common"},
		Stub:    []string{"JSON-LD context server", "DID registry", "remote signer", "delivery channel", "goroutine scheduling", "clock"},
	})
}

// peMsg is what a verifier gets to match.
type peMsg struct {
	forms  []string  // plain, jwt, cwt
	trees  []world.J // what submission paths start from
	wires  [][]byte
	merged world.J
	honest bool
	how    []string
}

func (m *peMsg) vp(i int) world.J {
	if m.forms[i] != "plain" {
		v, _ := m.trees[i]["vp"].(world.J)

		return v
	}

	return m.trees[i]
}

// entries gives the descriptor map of a presentation, or the one for all.
func (m *peMsg) entries(i int) []any {
	sm := m.merged
	if sm == nil {
		sm, _ = m.vp(i)["presentation_submission"].(world.J)
	}

	e, _ := sm["descriptor_map"].([]any)

	return e
}

func (m *peMsg) setEntries(i int, e []any) {
	sm := m.merged
	if sm == nil {
		sm, _ = m.vp(i)["presentation_submission"].(world.J)
	}

	if sm != nil {
		sm["descriptor_map"] = e
	}
}

func runSubmission(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newPEWorld(r)

	for i, n := 0, r.N(1, 5, "credentials"); i < n && !r.Failed(); i++ {
		w.issue()
	}

	if r.Failed() || len(w.creds) == 0 {
		return
	}

	faults := r.Chance(1, 5, "faults")

	// verifiers of one process may well use the same definition and options
	shared := w.genRequest()
	opts := append(make([]verifiable.CredentialOpt, 0, 8), verifiable.WithProofChecker(w.checker), verifiable.WithJSONLDDocumentLoader(w.loader),
		verifiable.WithDisabledRelatedResourceCheck())

	var tasks []func()

	for i, n := 0, r.N(1, 2, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			l := world.NewLoader(r)

			for op := 0; op < 2 && !r.Failed(); op++ {
				d := shared
				if r.Chance(1, 2, "own-definition") {
					d = w.genRequest()
				}

				var m *peMsg

				for t := 0; t < 3 && m == nil && !r.Failed(); t++ {
					m = w.submit(d, l)
					if m == nil {
						d = w.genRequest()
					}
				}

				if m == nil {
					continue
				}

				if r.Chance(2, 3, "tampered") {
					w.tamperSubmission(d, m)
				}

				if faults {
					l.Fail, l.Slow, w.reg.Fail = 40, 20, 30
				}

				l.Failed = 0

				w.match(d, m, l, opts)
				r.Sleep(time.Duration(r.Choose(3, "pause")) * time.Second)

				l.Fail, l.Slow = 0, 0
			}
		})
	}

	r.Parallel("verifier", tasks...)
}

// genRequest makes a definition all descriptors of which are to be answered, with credentials as they were issued.
func (w *peWorld) genRequest() *peDef {
	d := w.genDef(true)

	for _, x := range d.descs() {
		for _, f := range fieldsOf(x) {
			delete(f, "predicate")
		}

		if c, ok := x["constraints"].(world.J); ok && !w.r.Chance(1, 2, "keep-limit") {
			delete(c, "limit_disclosure")
		}
	}

	d.pd = &presexch.PresentationDefinition{}
	if err := json.Unmarshal(world.Enc(d.json), d.pd); err != nil {
		panic(err)
	}

	return d
}

// submit has the wallet answer the definition; nil if it cannot.
func (w *peWorld) submit(d *peDef, l *world.Loader) *peMsg {
	r := w.r
	cs := w.sub()

	var vcs []*verifiable.Credential
	for _, c := range cs {
		vcs = append(vcs, c.vc)
	}

	opts := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(verifiable.WithJSONLDDocumentLoader(l), verifiable.WithDisabledProofCheck(),
		verifiable.WithDisabledRelatedResourceCheck())}

	if r.Chance(1, 2, "jwt-vp") {
		opts = append(opts, presexch.WithDefaultPresentationFormat(presexch.FormatJWTVP))
	}

	m := &peMsg{honest: true}

	var (
		vps []*verifiable.Presentation
		sm  *presexch.PresentationSubmission
		err error
	)

	array := r.Chance(1, 3, "array")
	if p := core.Do(func() {
		if array {
			vps, sm, err = d.pd.CreateVPArray(vcs, l, opts...)
		} else {
			var vp *verifiable.Presentation

			vp, err = d.pd.CreateVP(vcs, l, opts...)
			vps = []*verifiable.Presentation{vp}
		}
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "answering %s panicked: %s", world.Enc(d.json), p)

		return nil
	}

	if err != nil {
		return nil
	}

	if sm != nil {
		m.merged, _ = asAny(sm).(world.J)
	}

	form := []string{"plain", "jwt", "jwt", "cwt"}[r.Choose(4, "vp-form")]

	for _, vp := range vps {
		// the paths are for a JWT (those of a JSON presentation are also found in one)
		if strings.Contains(string(world.Enc(asAny(vp.CustomFields["presentation_submission"]))), "$.vp.") || strings.Contains(string(world.Enc(m.merged)), ".vp.") {
			if form == "plain" {
				form = "jwt"
			}
		}
	}

	h := w.holders[0]
	sg := world.Creator(&world.Signer{K: h.Cur[0].Key, R: r})

	for _, vp := range vps {
		vp.Holder = h.DID

		var wire []byte

		switch form {
		case "plain":
			wire, err = vp.MarshalJSON()
			if err == nil {
				m.trees = append(m.trees, world.Dec(wire))
			}
		case "jwt":
			var out *verifiable.Presentation

			out, err = vp.CreateJWTVP(nil, world.JWSAlg(h.Cur[0].Key.Kind), sg, h.KID(0), r.Chance(1, 2, "minimize"))
			if err == nil {
				_, p, _, _ := splitJWT(out.JWT)
				wire = []byte(out.JWT)
				m.trees = append(m.trees, world.Dec(p))
			}
		case "cwt":
			var out *verifiable.Presentation

			out, err = vp.CreateCWTVP(nil, coseAlg(h.Cur[0].Key.Kind), sg, h.KID(0), false)
			if err == nil {
				wire = out.CWT.Raw
				b, _ := vp.MarshalJSON()
				m.trees = append(m.trees, world.J{"vp": world.Dec(b)})
			}
		}

		if err != nil {
			r.Violate("cannot-issue", "vp "+form, "a presentation could not be made: %v", err)

			return nil
		}

		m.wires = append(m.wires, wire)
		m.forms = append(m.forms, form)
	}

	return m
}

// forged makes something that looks like a credential of an issuer and is not.
func (w *peWorld) forged() any {
	r := w.r
	c := w.creds[r.Choose(len(w.creds), "victim")]
	doc := world.CloneJ(c.doc)

	s, _ := doc["credentialSubject"].(world.J)
	if l, ok := doc["credentialSubject"].([]any); ok {
		s = l[r.Choose(len(l), "subject")].(world.J)
	}

	switch r.Choose(3, "forgery") {
	case 0:
		s["serial"] = "forged"
	case 1:
		s["age"] = 18.0
	case 2:
		s["name"] = "Ann"
		s["id"] = w.evil.DID
	}

	if world.Same(doc, c.doc) {
		s["serial"] = "forged"
	}

	if c.form == "ldp" {
		if r.Chance(1, 3, "no-proof") {
			delete(doc, "proof")
		}

		return doc
	}

	hd, p, sig, _ := splitJWT(c.tok)
	pay := world.Dec(p)

	if _, ok := pay["vc"].(map[string]any); ok {
		pay["vc"] = doc
	} else {
		pay = doc
	}

	delete(pay, "_sd_alg")

	switch r.Choose(4, "signature") {
	case 0: // the issuer's, over something else
		return joinJWT(hd, world.Enc(pay), sig)
	case 1:
		return joinJWT(world.J{"alg": "none"}, world.Enc(pay), nil)
	case 2:
		return signJWT(w.evil.Cur[0].Key, world.J{"alg": w.evil.Cur[0].Key.Alg, "kid": w.evil.KID(0)}, world.Enc(pay))
	}

	return signJWT(w.evil.Cur[0].Key, hd, world.Enc(pay))
}

// genuine is one credential that some wallet could present, in a form it may be presented in.
func (w *peWorld) genuine() any {
	r := w.r
	c := w.creds[r.Choose(len(w.creds), "genuine")]

	switch c.form {
	case "ldp":
		return world.CloneJ(c.doc)
	case "jwt":
		return c.tok
	}

	ds := append([]string{}, c.discs...)
	if len(ds) > 0 && r.Chance(1, 2, "hide") {
		i := r.Choose(len(ds), "hidden")
		ds = append(ds[:i], ds[i+1:]...)
	}

	return strings.Join(append(append([]string{c.tok}, ds...), ""), "~")
}

var pePathForms = []string{
	"$.verifiableCredential[%d]", "$.vp.verifiableCredential[%d]", "$['verifiableCredential'][%d]", "$.verifiableCredential", "$.verifiableCredential[*]", "$..verifiableCredential[%d]",
	"$", "", "verifiableCredential[%d]", "$[%d]", "$[%d].verifiableCredential[0]", "$[%d].vp.verifiableCredential[0]", "$.verifiableCredential[-1]",
	"$.extra", "$.vp.extra", "$.verifiableCredential[%d].credentialSubject", "$.verifiableCredential[?(@.id)]", "$.[", "$.verifiableCredential[9]", "$[99]", "(", "$.verifiableCredential[%d] ?? $", "$$",
}

// tamperSubmission changes a submission, or what it points to, with the means of a holder who controls everything but the issuers' keys.
func (w *peWorld) tamperSubmission(d *peDef, m *peMsg) {
	r := w.r
	m.honest = false

	for i := range m.forms {
		if m.forms[i] == "cwt" {
			m.trees[i] = m.vp(i)
			m.forms[i] = "plain"
		}
	}

	path := func() string {
		p := pePathForms[r.Choose(len(pePathForms), "path")]
		if strings.Contains(p, "%d") {
			p = fmt.Sprintf(p, r.Choose(3, "i"))
		}

		return p
	}

	literal := func(v any) string {
		if s, ok := v.(string); ok {
			return fmt.Sprintf("%q", s)
		}

		return string(world.Enc(v))
	}

	for k, n := 0, r.N(1, 3, "changes"); k < n; k++ {
		i := r.Choose(len(m.trees), "vp")
		vp := m.vp(i)
		es := m.entries(i)
		vcs, _ := vp["verifiableCredential"].([]any)
		kind := r.Choose(15, "change")

		var e world.J
		if len(es) > 0 {
			e, _ = es[r.Choose(len(es), "entry")].(world.J)
		}

		// leaf is what names the credential
		leaf := e
		for leaf != nil {
			n, ok := leaf["path_nested"].(world.J)
			if !ok {
				break
			}

			leaf = n
		}

		how := ""

		switch kind {
		case 0, 1:
			if len(vcs) > 0 {
				how = "forged credential"
				vcs[r.Choose(len(vcs), "vc")] = w.forged()
			}
		case 2:
			if len(vcs) > 0 {
				how = "other credential"
				vcs[r.Choose(len(vcs), "vc")] = w.genuine()
			}
		case 3:
			if len(vcs) > 1 {
				how = "credentials swapped"
				vcs[0], vcs[1] = vcs[1], vcs[0]
			}
		case 4:
			if leaf != nil {
				how = "path"
				leaf["path"] = path()
			}
		case 5:
			if e != nil {
				how = "outer path"
				e["path"] = path()
			}
		case 6:
			if leaf != nil {
				how = "literal in a path"
				leaf["path"] = literal(w.genuine())

				if e != nil && r.Chance(1, 2, "flat") {
					e["path"] = leaf["path"]
					delete(e, "path_nested")
				}
			}
		case 7:
			how = "descriptor ids"
			if x := d.descs(); e != nil {
				e["id"] = x[r.Choose(len(x), "id")]["id"]
				if r.Chance(1, 6, "unknown") {
					e["id"] = "unknown"
				}
			}
		case 8:
			if len(es) > 0 {
				how = "entry left out"
				j := r.Choose(len(es), "left-out")
				m.setEntries(i, append(append([]any{}, es[:j]...), es[j+1:]...))
			}
		case 9:
			how = "odd entry"
			odd := []any{nil, world.J{}, "x", world.J{"id": d.descs()[0]["id"]}, world.J{"id": d.descs()[0]["id"], "path": "$.verifiableCredential[0]", "path_nested": world.J{}}, []any{}, world.J{"id": 5.0}}
			m.setEntries(i, append(append([]any{}, es...), odd[r.Choose(len(odd), "odd")]))
		case 10:
			how = "credential elsewhere"
			v := any(nil)

			if r.Chance(1, 2, "genuine") {
				v = w.genuine()
			} else {
				v = w.forged()
			}

			vp["extra"] = v

			if leaf != nil {
				leaf["path"] = "$.extra"
			}
		case 11:
			how = "odd submission"
			odd := []any{nil, []any{}, "x", world.J{}, world.J{"descriptor_map": nil}, world.J{"descriptor_map": world.J{}}, world.J{"descriptor_map": []any{}}}

			if x := odd[r.Choose(len(odd), "odd")]; m.merged == nil {
				vp["presentation_submission"] = x
			} else if o, ok := x.(world.J); ok {
				m.merged = o
			}
		case 12:
			if e != nil {
				how = "nested deeper"
				e["path_nested"] = world.J{"id": e["id"], "path": "$", "path_nested": e["path_nested"]}
			}
		case 13:
			if len(m.trees) < 4 {
				how = "another presentation"
				x := world.CloneJ(m.trees[i])

				y := x
				if m.forms[i] != "plain" {
					y, _ = x["vp"].(world.J)
					x["jti"] = fmt.Sprintf("urn:vp:%d", len(m.trees))
				}

				y["id"] = fmt.Sprintf("urn:vp:%d", len(m.trees))
				y["verifiableCredential"] = []any{w.genuine(), w.genuine()}

				m.trees = append(m.trees, x)
				m.forms = append(m.forms, m.forms[i])

				if e != nil && r.Chance(2, 3, "cross") {
					e["path"] = fmt.Sprintf("$[%d]", r.Choose(len(m.trees), "i"))
					e["path_nested"] = world.J{"id": e["id"], "path": "$.verifiableCredential[0]"}
				}
			}
		case 14:
			how = "presentation type"
			vp["type"] = []any{"VerifiablePresentation"}
		}

		if how != "" {
			m.how = append(m.how, how)
		}
	}

	sort.Strings(m.how)

	h := w.holders[0]
	m.wires = nil

	for i, t := range m.trees {
		if m.forms[i] == "plain" {
			m.wires = append(m.wires, world.Enc(t))
		} else {
			m.wires = append(m.wires, []byte(signJWT(h.Cur[0].Key, world.J{"alg": h.Cur[0].Key.Alg, "kid": h.KID(0), "typ": "JWT"}, world.Enc(t))))
		}

		m.trees[i] = world.Dec(world.Enc(t))
	}
}

// asIssued finds the issued credential that something is, and what of it is disclosed.
func (w *peWorld) asIssued(v any) (c *peCred, doc world.J) {
	if o, ok := v.(map[string]any); ok {
		if str(firstOf(o["type"])) != "EnvelopedVerifiableCredential" {
			for _, c := range w.creds {
				if c.form == "ldp" && world.Same(o, c.doc) {
					return c, c.doc
				}
			}

			return nil, nil
		}

		_, tok, _ := strings.Cut(str(o["id"]), ",")
		v = tok
	}

	s := str(v)
	tok, rest, hasSD := strings.Cut(s, "~")

	for _, c := range w.creds {
		if c.form == "ldp" || c.tok != tok {
			continue
		}

		if c.form == "jwt" {
			if hasSD {
				return nil, nil
			}

			return c, c.doc
		}

		// An SD-JWT without disclosures is written without a separator, as a JWT like any other: the digests it
		// carries are then claims like any other.
		if !hasSD {
			_, p, _, _ := splitJWT(tok)

			return c, world.J(rootOf(world.Dec(p)))
		}

		var ds []string

		for _, d := range strings.Split(rest, "~") {
			if d == "" {
				continue
			}

			if !contains(c.discs, d) {
				return nil, nil
			}

			ds = append(ds, d)
		}

		_, p, _, _ := splitJWT(tok)

		o, err := refProcess(world.J(rootOf(world.Dec(p))), ds, c.hash)
		if err != nil {
			return nil, nil
		}

		o = world.Dec(world.Enc(o))
		delete(o, "_sd_alg")

		return c, o
	}

	return nil, nil
}

// sameVC compares credentials in any of their forms.
func sameVC(a, b any) bool {
	text := func(v any) (string, bool) {
		if o, ok := v.(map[string]any); ok {
			if str(firstOf(o["type"])) != "EnvelopedVerifiableCredential" {
				return "", false
			}

			_, v, _ := strings.Cut(str(o["id"]), ",")

			return strings.TrimRight(v, "~"), true
		}

		s, ok := v.(string)

		return strings.TrimRight(s, "~"), ok
	}

	x, xok := text(a)
	y, yok := text(b)

	if xok || yok {
		return xok && yok && x == y
	}

	return world.Same(a, b)
}

// holds says whether a document has the credential anywhere.
func holds(tree, v any) bool {
	if sameVC(tree, v) {
		return true
	}

	switch x := tree.(type) {
	case map[string]any:
		for _, e := range x {
			if holds(e, v) {
				return true
			}
		}
	case []any:
		for _, e := range x {
			if holds(e, v) {
				return true
			}
		}
	}

	return false
}

// answers says whether what is disclosed of a credential answers a descriptor: surely, or perhaps (members left empty may be dropped).
func answers(desc, doc world.J, token, schemas bool) (surely, perhaps bool) {
	a := constraintsOK(desc, doc, token)
	n, _ := normClaims(doc).(world.J)
	b := constraintsOK(desc, n, token)

	s := !schemas || schemaOK(desc, doc)

	return a && b && s, (a || b) && s
}

func (w *peWorld) match(d *peDef, m *peMsg, l *world.Loader, shared []verifiable.CredentialOpt) {
	r := w.r
	token := w.checker

	opts := shared
	if l.Fail > 0 || r.Chance(1, 2, "own-options") {
		opts = []verifiable.CredentialOpt{verifiable.WithProofChecker(token), verifiable.WithJSONLDDocumentLoader(l), verifiable.WithDisabledRelatedResourceCheck()}
	}

	var (
		vps []*verifiable.Presentation
		err error
		res []*presexch.MatchValue
	)

	what := fmt.Sprintf("matching %v %s, tampered %q, with %s\nsubmission %s", m.forms, encAll(m.trees), m.how, world.Enc(d.json), world.Enc(m.merged))
	schemas := !r.Chance(1, 4, "no-schema-check")
	stage := "parse"

	p := core.Do(func() {
		for i, b := range m.wires {
			po := []verifiable.PresentationOpt{verifiable.WithPresJSONLDDocumentLoader(l), verifiable.WithPresRelatedResourceCheck(false), verifiable.WithPresDisabledProofCheck()}
			if m.forms[i] != "plain" {
				po[2] = verifiable.WithPresProofChecker(token)
			}

			var vp *verifiable.Presentation

			if vp, err = verifiable.ParsePresentation(b, po...); err != nil {
				return
			}

			vps = append(vps, vp)
		}

		stage = "match"
		mo := []presexch.MatchOption{presexch.WithCredentialOptions(opts...)}

		if !schemas {
			mo = append(mo, presexch.WithDisableSchemaValidation())
		}

		if m.merged != nil {
			sm := &presexch.PresentationSubmission{}

			if r.Chance(1, 2, "map") || json.Unmarshal(world.Enc(m.merged), sm) != nil {
				mo = append(mo, presexch.WithMergedSubmissionMap(m.merged))
			} else {
				mo = append(mo, presexch.WithMergedSubmission(sm))
			}
		}

		res, err = d.pd.Match(vps, l, mo...)
	})

	if p != "" {
		r.Violate("panic", core.PanicSite(p), "%s panicked: %s", what, p)

		return
	}

	verdict := "rejected"

	switch {
	case err == nil:
		verdict = "accepted"

		w.checkMatch(d, m, vps, res, schemas, what)
	case l.Failed > 0 || w.reg.Fail > 0:
		verdict = "fault"
	case m.honest:
		if w.mustMatch(d, m, schemas) {
			r.Violate("refused", stage+" "+errKey(err), "an honest submission was refused: %v\n%s", err, what)
		}

		verdict = "unsatisfied"
	}

	how := strings.Join(m.how, "+")
	if len(m.how) > 2 {
		how = "several"
	}

	r.Eval("%v %d merged=%v %q schemas=%v fault=%v %s", m.forms[0], len(m.forms), m.merged != nil, how, schemas, l.Fail > 0, verdict)
}

func encAll(trees []world.J) (s string) {
	for _, t := range trees {
		s += string(world.Enc(t)) + "\n"
	}

	return s
}

// pointsTo follows the paths an honest submission has.
func (m *peMsg) pointsTo(i int, e world.J) (v any, vp int) {
	n, _ := e["path_nested"].(world.J)
	roots := []any{}

	for k := range m.trees {
		roots = append(roots, m.vp(k))
	}

	if m.merged == nil {
		v, _, _ = resolve(roots[i:i+1], str(e["path"]), str(n["path"]), false)

		return v, i
	}

	v, where, ok := resolve(roots, str(e["path"]), str(n["path"]), true)
	if !ok {
		return nil, 0
	}

	fmt.Sscanf(where, "%d/", &vp)

	return v, vp
}

// mustMatch says that every entry of an honest submission points to an issued credential that answers the descriptor.
func (w *peWorld) mustMatch(d *peDef, m *peMsg, schemas bool) bool {
	have := map[string]bool{}

	for i := range m.trees {
		for _, x := range m.entries(i) {
			e := x.(world.J)
			v, _ := m.pointsTo(i, e)
			c, doc := w.asIssued(v)

			if c == nil {
				return false
			}

			id := str(e["id"])
			if ok, _ := answers(d.desc(id), doc, c.form != "ldp", schemas); !ok {
				return false
			}

			have[id] = true
		}
	}

	return len(have) == len(d.descs())
}

func (w *peWorld) checkMatch(d *peDef, m *peMsg, vps []*verifiable.Presentation, res []*presexch.MatchValue, schemas bool, what string) {
	r := w.r
	have := map[string]bool{}

	var got []string

	for _, mv := range res {
		if mv == nil || mv.Credential == nil || d.desc(mv.DescriptorID) == nil {
			r.Violate("odd-match", "", "a match without a credential or descriptor: %+v\n%s", mv, what)

			return
		}

		var v any = mv.Credential.ToRawJSON()

		if e := mv.Credential.JWTEnvelope; e != nil {
			s := e.JWT
			for _, x := range e.SDJWTDisclosures {
				s += "~" + x.Disclosure
			}

			v = s
		} else {
			v = world.Dec(world.Enc(v))
		}

		c, doc := w.asIssued(v)
		if c == nil {
			r.Violate("not-issued", "match", "descriptor %s was matched with a credential nobody issued: %s\n%s", mv.DescriptorID, world.Enc(v), what)

			return
		}

		in := false

		for i, t := range m.trees {
			if vps[i].ID == mv.PresentationID {
				in = in || holds(t, v)
			}
		}

		if !in {
			r.Violate("not-presented", "match", "descriptor %s was matched with credential %d, said to be in presentation %q, which does not have it\n%s", mv.DescriptorID, c.n, mv.PresentationID, what)

			return
		}

		if _, ok := answers(d.desc(mv.DescriptorID), doc, c.form != "ldp", schemas); !ok {
			r.Violate("unsatisfied", "match", "descriptor %s was matched with credential %d, which does not answer it: %s\ndescriptor %s\n%s", mv.DescriptorID, c.n, world.Enc(doc), world.Enc(d.desc(mv.DescriptorID)), what)

			return
		}

		have[mv.DescriptorID] = true
		got = append(got, fmt.Sprintf("%s %s %d", mv.DescriptorID, mv.PresentationID, c.n))
	}

	if len(have) != len(d.descs()) {
		r.Violate("not-covered", "match", "accepted with credentials for %v only\n%s", have, what)

		return
	}

	if !m.honest {
		return
	}

	var want []string

	for i := range m.trees {
		if m.merged != nil && i > 0 {
			break
		}

		for _, x := range m.entries(i) {
			e := x.(world.J)
			v, k := m.pointsTo(i, e)

			if c, _ := w.asIssued(v); c != nil {
				want = append(want, fmt.Sprintf("%s %s %d", e["id"], vps[k].ID, c.n))
			}
		}
	}

	sort.Strings(want)
	sort.Strings(got)

	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		r.Violate("other-match", "match", "the submission maps %q, the match says %q\n%s", want, got, what)
	}
}
