package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	util "github.com/trustbloc/did-go/doc/util/time"

	"github.com/trustbloc/vc-go/proof/creator"
	vctime "github.com/trustbloc/vc-go/util/time"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C18", Title: "Every form of a credential or presentation states the same contents", Run: runForms,
		Rule:    "one object of a history of building, changing, copying, enveloping, marshalling and parsing, compared member by member with a plain JSON model that followed the same history",
		Measure: "how built x operation x data model x shape of the members",
		Real:    []string{"verifiable (credential, presentation and their JSON, JWT, CWT and enveloped forms)", "util/json", "util/time", "jwt", "cwt"},
		Stub:    []string{"signing key", "scheduler", "clock"},
	})
}

// formDoc is what an object should say: its JSON without dates and proofs, and those apart.
type formDoc struct {
	doc      world.J
	from, to *time.Time
	proofs   []any // nil also when unspecified
	anyProof bool  // an envelope may or may not keep embedded proofs
	seconds  bool  // an envelope keeps whole seconds only
}

func (d *formDoc) clone() *formDoc {
	c := *d
	c.doc = world.CloneJ(d.doc)

	return &c
}

var dateNames = [][2]string{{"issuanceDate", "validFrom"}, {"expirationDate", "validUntil"}}

func list(v any) []any {
	switch x := v.(type) {
	case nil:
		return nil
	case []any:
		return x
	}

	return []any{v}
}

// canonDoc brings the spellings that mean the same to one form.
func canonDoc(d world.J) world.J {
	o := world.Dec(world.Enc(d))

	for _, k := range []string{"@context", "type", "credentialSchema", "credentialStatus", "termsOfUse", "refreshService", "credentialSubject", "relatedResource", "verifiableCredential"} {
		if v, ok := o[k]; ok {
			if o[k] = list(v); len(list(v)) == 0 {
				delete(o, k)
			}
		}
	}

	for i, s := range list(o["credentialSubject"]) {
		if id, ok := s.(string); ok {
			o["credentialSubject"].([]any)[i] = world.J{"id": id}
		}
	}

	if m, ok := o["issuer"].(world.J); ok && len(m) == 1 {
		o["issuer"] = m["id"]
	}

	return o
}

func (d *formDoc) sameTime(want *time.Time, got string) bool {
	t, err := time.Parse(time.RFC3339, got)
	if err != nil {
		t, err = time.Parse(time.RFC3339, got+"Z")
	}

	if err != nil || want == nil {
		return false
	}

	return t.Equal(*want) || d.seconds && t.Unix() == want.Unix()
}

// against compares JSON of an object with the model.
func (d *formDoc) against(got world.J) string {
	g := canonDoc(got)

	for i, want := range []*time.Time{d.from, d.to} {
		n := 0

		for _, k := range dateNames[i] {
			v, ok := g[k]
			if !ok {
				continue
			}

			n++

			if s, _ := v.(string); !d.sameTime(want, s) {
				return fmt.Sprintf("%s is %v, expected %v", k, v, want)
			}

			delete(g, k)
		}

		if want != nil && n == 0 {
			return fmt.Sprintf("%s is missing, expected %v", dateNames[i], want)
		}
	}

	if p := list(g["proof"]); !d.anyProof && !world.Same(p, d.proofs) {
		return fmt.Sprintf("proofs are %s, expected %s", world.Enc(p), world.Enc(d.proofs))
	}

	delete(g, "proof")

	if w := canonDoc(d.doc); !world.Same(g, w) {
		for k := range w {
			if !world.Same(g[k], w[k]) {
				return fmt.Sprintf("%s is %s, expected %s", k, world.Enc(g[k]), world.Enc(w[k]))
			}
		}

		for k := range g {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s is %s, expected nothing", k, world.Enc(g[k]))
			}
		}
	}

	return ""
}

// contents compares the typed contents with the model.
func (d *formDoc) contents(c verifiable.CredentialContents) string {
	o := world.J{}
	put := func(k string, v any, ok bool) {
		if ok {
			o[k] = v
		}
	}
	typed := func(ts []verifiable.TypedID) (l []any) {
		for _, t := range ts {
			m := world.J{"id": t.ID, "type": t.Type}
			for k, v := range t.CustomFields {
				m[k] = v
			}

			if t.ID == "" {
				delete(m, "id")
			}

			if t.Type == "" {
				delete(m, "type")
			}

			l = append(l, m)
		}

		return l
	}

	ctx := []any{}
	for _, s := range c.Context {
		ctx = append(ctx, s)
	}

	put("@context", append(ctx, c.CustomContext...), len(ctx)+len(c.CustomContext) > 0)
	put("id", c.ID, c.ID != "")
	put("type", c.Types, len(c.Types) > 0)

	if c.Issuer != nil {
		m := world.J{"id": c.Issuer.ID}
		for k, v := range c.Issuer.CustomFields {
			m[k] = v
		}

		o["issuer"] = m
	}

	var subs []any

	for _, s := range c.Subject {
		m := world.J{}
		for k, v := range s.CustomFields {
			m[k] = v
		}

		if s.ID != "" {
			m["id"] = s.ID
		}

		subs = append(subs, m)
	}

	put("credentialSubject", subs, len(subs) > 0)
	put("credentialSchema", typed(c.Schemas), len(c.Schemas) > 0)
	put("termsOfUse", typed(c.TermsOfUse), len(c.TermsOfUse) > 0)

	var st []verifiable.TypedID
	for _, s := range c.Status {
		st = append(st, *s)
	}

	put("credentialStatus", typed(st), len(st) > 0)

	if c.RefreshService != nil {
		o["refreshService"] = typed([]verifiable.TypedID{*c.RefreshService})
	}

	put("evidence", c.Evidence, c.Evidence != nil)

	// the id is no custom field, and the type of an entry is not either
	shadow := func(what string, f verifiable.CustomFields, names ...string) string {
		for _, n := range names {
			if v, ok := f[n]; ok {
				return fmt.Sprintf("%s has the custom field %s: %s", what, n, world.Enc(v))
			}
		}

		return ""
	}

	if c.Issuer != nil {
		if m := shadow("issuer", c.Issuer.CustomFields, "id"); m != "" {
			return m
		}
	}

	for _, s := range c.Subject {
		if m := shadow("credentialSubject", s.CustomFields, "id"); m != "" {
			return m
		}
	}

	for k, ts := range map[string][]verifiable.TypedID{"credentialSchema": c.Schemas, "credentialStatus": st, "termsOfUse": c.TermsOfUse} {
		for _, t := range ts {
			if m := shadow(k, t.CustomFields, "id", "type"); m != "" {
				return m
			}
		}
	}

	var res []any

	for _, x := range c.RelatedResources {
		m := world.J{"id": x.Id}

		for k, v := range map[string]string{"digestSRI": x.DigestSRI, "digestMultibase": x.DigestMultiBase, "mediaType": x.MediaType} {
			if v != "" {
				m[k] = v
			}
		}

		res = append(res, m)
	}

	put("relatedResource", res, len(res) > 0)

	w := canonDoc(d.doc)
	g := canonDoc(o)

	for _, k := range []string{"@context", "id", "type", "issuer", "credentialSubject", "credentialSchema", "termsOfUse", "credentialStatus", "refreshService", "evidence", "relatedResource"} {
		if !world.Same(g[k], w[k]) {
			return fmt.Sprintf("%s is %s, expected %s", k, world.Enc(g[k]), world.Enc(w[k]))
		}
	}

	for i, t := range []*util.TimeWrapper{c.Issued, c.Expired} {
		want := []*time.Time{d.from, d.to}[i]

		switch {
		case t == nil && want == nil:
		case t == nil || want == nil || !t.Time.Equal(*want) && !(d.seconds && t.Time.Unix() == want.Unix()):
			return fmt.Sprintf("%s is %v, expected %v", []string{"Issued", "Expired"}[i], t, want)
		}
	}

	return ""
}

type formObj struct {
	c    *verifiable.Credential
	d    *formDoc
	how  string
	text string
}

type formWorld struct {
	r     *core.Run
	a     *world.Actor
	cr    *creator.ProofCreator
	opts  []verifiable.CredentialOpt
	popts []verifiable.PresentationOpt
	seq   int
	objs  []*formObj
}

func stamp(s string) *time.Time {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		t, err = time.Parse(time.RFC3339, s+"Z")
	}

	if err != nil {
		panic(err)
	}

	return &t
}

var stamps = []string{"2024-01-01T00:00:00Z", "2023-06-30T10:20:30+02:00", "2024-02-29T23:59:59.5Z", "2019-01-01T00:00:00.000Z", "1960-05-05T01:02:03-11:30", "2024-05-05T01:02:03", "2030-01-01T00:00:00.123456789Z", "9999-12-31T23:59:59Z"}

func (w *formWorld) typedID(kind string, most int, status bool) any {
	r := w.r

	var l []any

	for i, n := 0, r.N(1, most, kind); i < n; i++ {
		m := world.J{"id": fmt.Sprintf("https://%s.example/%d", kind, i), "type": "Type" + kind}

		switch r.Choose(4, "typed") {
		case 0:
			m["more"] = world.J{"deep": []any{1.0, nil, "x"}}
		case 1:
			m["index"] = fmt.Sprint(i)
		case 2:
			if !status {
				delete(m, "id")
			}
		}

		l = append(l, m)
	}

	if len(l) == 1 && r.Chance(1, 2, "single") {
		return l[0]
	}

	return l
}

// gen makes a model document with every kind of member.
func (w *formWorld) gen() *formDoc {
	r := w.r
	w.seq++
	v2 := r.Chance(1, 2, "v2")
	d := world.GenVC(r, world.VCSpec{Issuer: w.a.DID, Subject: "did:sim:holder", V2: v2, Seq: w.seq})
	f := &formDoc{doc: d}

	for _, p := range dateNames {
		delete(d, p[0])
		delete(d, p[1])
	}

	if !r.Chance(1, 8, "undated") {
		f.from = stamp(stamps[r.Choose(len(stamps), "from")])
	}

	if r.Chance(1, 2, "ends") {
		f.to = stamp(stamps[r.Choose(len(stamps), "to")])
	}

	for _, k := range []string{"credentialSchema", "termsOfUse"} {
		delete(d, k)

		if r.Chance(1, 3, k) {
			d[k] = w.typedID(strings.ToLower(k), 3, false)
		}
	}

	if r.Chance(1, 3, "status") {
		d["credentialStatus"] = w.typedID("status", 3, true)
	}

	delete(d, "refreshService")

	if r.Chance(1, 3, "refresh") {
		d["refreshService"] = w.typedID("refresh", 1, true)
	}

	if r.Chance(1, 4, "resources") {
		d["relatedResource"] = []any{world.J{"id": "https://res.example/a", "digestSRI": sriOf([]byte("resource"))}, world.J{"id": "https://res.example/b", "digestSRI": sriOf([]byte("other")), "mediaType": "text/plain"}}[:r.N(1, 2, "resources")]
	}

	if r.Chance(1, 3, "custom-context") {
		d["@context"] = append(d["@context"].([]any), world.J{"local": "https://sim.example/local#"})

		if r.Chance(1, 3, "string-after") {
			d["@context"] = append(d["@context"].([]any), "https://sim.example/after/v1")
		}
	}

	switch r.Choose(8, "oddity") {
	case 0:
		delete(d, "id")
	case 1:
		d["type"] = "VerifiableCredential"
	case 2:
		d["@context"] = d["@context"].([]any)[0]
	case 3:
		d["issuer"] = world.J{"id": w.a.DID, "name": "I", "logo": world.J{"url": "u"}, "list": []any{}}
	case 4:
		d["credentialSubject"] = "did:sim:only"
	case 5:
		d["evidence"] = []any{world.J{"id": "e", "x": nil}, "text", 1.5, []any{[]any{}}}
	case 6:
		d["custom"] = []any{nil, world.J{}, []any{}, "", 0.0, false, "\u2028<&>", 1e21, -0.25}
	}

	if r.Chance(1, 4, "proofs") {
		p := world.J{"type": "Ed25519Signature2018", "created": "2024-01-01T00:00:00Z", "jws": "a..b", "proofPurpose": "assertionMethod", "verificationMethod": w.a.KID(0), "x": world.J{"y": []any{1.0}}}
		f.proofs = []any{p, world.J{"type": "DataIntegrityProof", "cryptosuite": "x", "proofValue": "z"}}[:r.N(1, 2, "proofs")]
	}

	return f
}

// json writes the model down the way an issuer may have done.
func (w *formWorld) json(f *formDoc) world.J {
	r := w.r
	d := world.CloneJ(f.doc)
	v := 0

	if list(d["@context"])[0] == world.V2 {
		v = 1
	}

	for i, t := range []*time.Time{f.from, f.to} {
		if t == nil {
			continue
		}

		x := t.Format(time.RFC3339Nano)

		for _, s := range stamps { // as an issuer wrote it
			if stamp(s).Equal(*t) && r.Chance(1, 2, "written") {
				x = s

				break
			}
		}

		d[dateNames[i][v]] = x
	}

	switch len(f.proofs) {
	case 0:
	case 1:
		d["proof"] = f.proofs[0]
		if r.Chance(1, 3, "proof-list") {
			d["proof"] = f.proofs
		}
	default:
		d["proof"] = f.proofs
	}

	return world.Dec(world.Enc(d))
}

func typedOf(v any) verifiable.TypedID {
	m, _ := v.(world.J)
	t := verifiable.TypedID{CustomFields: verifiable.CustomFields{}}

	for k, x := range m {
		switch k {
		case "id":
			t.ID, _ = x.(string)
		case "type":
			t.Type, _ = x.(string)
		default:
			t.CustomFields[k] = x
		}
	}

	return t
}

func typedsOf(v any) (l []verifiable.TypedID) {
	for _, e := range list(v) {
		l = append(l, typedOf(e))
	}

	return l
}

func statusOf(v any) (l []*verifiable.TypedID) {
	for _, e := range typedsOf(v) {
		l = append(l, &e)
	}

	return l
}

func subjectsOf(v any) (l []verifiable.Subject) {
	for _, e := range list(v) {
		if id, ok := e.(string); ok {
			l = append(l, verifiable.Subject{ID: id})

			continue
		}

		s := verifiable.Subject{CustomFields: verifiable.CustomFields{}}

		for k, x := range e.(world.J) {
			if k == "id" {
				s.ID, _ = x.(string)
			} else {
				s.CustomFields[k] = x
			}
		}

		l = append(l, s)
	}

	return l
}

func issuerOf(v any) *verifiable.Issuer {
	switch x := v.(type) {
	case string:
		return &verifiable.Issuer{ID: x}
	case world.J:
		i := &verifiable.Issuer{CustomFields: verifiable.CustomFields{}}

		for k, e := range x {
			if k == "id" {
				i.ID, _ = e.(string)
			} else {
				i.CustomFields[k] = e
			}
		}

		return i
	}

	return nil
}

func stringsOf(v any) (l []string, rest []any) {
	for i, e := range list(v) {
		s, ok := e.(string)
		if !ok {
			return l, list(v)[i:]
		}

		l = append(l, s)
	}

	return l, nil
}

func wrap(t *time.Time) *util.TimeWrapper {
	if t == nil {
		return nil
	}

	return util.NewTime(*t)
}

// build constructs a credential from contents.
func (w *formWorld) build(f *formDoc) (*verifiable.Credential, error) {
	d := world.CloneJ(f.doc)
	c := verifiable.CredentialContents{Issued: wrap(f.from), Expired: wrap(f.to), Schemas: typedsOf(d["credentialSchema"]), TermsOfUse: typedsOf(d["termsOfUse"]), Status: statusOf(d["credentialStatus"]), Subject: subjectsOf(d["credentialSubject"]), Issuer: issuerOf(d["issuer"]), Evidence: d["evidence"]}
	c.Context, c.CustomContext = stringsOf(d["@context"])
	c.Types, _ = stringsOf(d["type"])
	c.ID, _ = d["id"].(string)

	if t := typedsOf(d["refreshService"]); len(t) > 0 {
		c.RefreshService = &t[0]
	}

	for _, e := range list(d["relatedResource"]) {
		m := e.(world.J)
		s := func(k string) string { x, _ := m[k].(string); return x }
		c.RelatedResources = append(c.RelatedResources, verifiable.RelatedResource{Id: s("id"), DigestSRI: s("digestSRI"), DigestMultiBase: s("digestMultibase"), MediaType: s("mediaType")})
	}

	custom := verifiable.CustomFields{}

	for k, v := range d {
		switch k {
		case "@context", "id", "type", "issuer", "credentialSubject", "credentialSchema", "termsOfUse", "credentialStatus", "refreshService", "evidence", "relatedResource":
		default:
			custom[k] = v
		}
	}

	if len(f.proofs) == 0 {
		return verifiable.CreateCredential(c, custom)
	}

	var ps []verifiable.Proof
	for _, p := range f.proofs {
		ps = append(ps, verifiable.Proof(world.CloneJ(p.(world.J))))
	}

	return verifiable.CreateCredentialWithProofs(c, custom, ps)
}

// note checks a new object of the history.
func (w *formWorld) note(how string, c *verifiable.Credential, d *formDoc) *formObj {
	r := w.r
	o := &formObj{c: c, d: d, how: how}
	raw := c.ToRawJSON()
	r.Eval("%s v2=%v status %d schema %d subjects %d proofs %d", how, list(d.doc["@context"])[0] == world.V2, len(list(d.doc["credentialStatus"])), len(list(d.doc["credentialSchema"])), len(list(d.doc["credentialSubject"])), len(d.proofs))

	if m := d.against(raw); m != "" {
		r.Violate("json", how+": "+firstWord(m), "the JSON after %s: %s\n%s", how, m, world.Enc(raw))
	} else if m := d.contents(c.Contents()); m != "" {
		r.Violate("contents", how+": "+firstWord(m), "the contents after %s: %s\n%s", how, m, world.Enc(raw))
	} else if !d.anyProof && len(c.Proofs()) != len(d.proofs) {
		r.Violate("proofs", how, "after %s there are %d proofs, expected %d", how, len(c.Proofs()), len(d.proofs))
	}

	for k, v := range d.doc {
		switch k {
		case "@context", "id", "type", "issuer", "credentialSubject", "credentialSchema", "termsOfUse", "credentialStatus", "refreshService", "evidence", "relatedResource":
		default:
			if !world.Same(c.CustomField(k), v) {
				r.Violate("custom", how, "custom field %s after %s is %v, expected %v", k, how, c.CustomField(k), v)
			}
		}
	}

	o.text = o.now()

	return o
}

// presentable says whether a presentation can hold it: CWT credentials of version 1 are validated there.
func (o *formObj) presentable() bool {
	return !o.c.IsCWT() || list(o.d.doc["@context"])[0] == world.V2
}

func firstWord(s string) string { return strings.SplitN(s, " ", 2)[0] }

func (o *formObj) now() string {
	c := o.c.Contents()

	b, _ := json.Marshal([]any{o.c.ToRawJSON(), c.Context, c.CustomContext, c.ID, c.Types, c.Subject, c.Issuer, c.Issued, c.Expired, c.Status, c.Schemas, c.TermsOfUse, c.RefreshService, c.RelatedResources, c.Evidence, o.c.Proofs()})
	for _, s := range c.Subject {
		b = append(b, world.Enc(world.J(s.CustomFields))...)
	}

	return string(b)
}

// exact checks that reading a document keeps every spelling of it: proofs elsewhere depend on them.
func (w *formWorld) exact(how string, c *verifiable.Credential, in world.J) {
	g, x := world.Dec(world.Enc(c.ToRawJSON())), world.Dec(world.Enc(in))

	for _, j := range []world.J{g, x} {
		if p, ok := j["proof"]; ok {
			j["proof"] = list(p)
		}
	}

	if !world.Same(g, x) {
		w.r.Violate("exact", how, "a document read by %s\n%s\nbecame\n%s", how, world.Enc(x), world.Enc(g))
	}
}

// change applies one WithModified operation.
func (w *formWorld) change(o *formObj) *formObj {
	r := w.r
	d := o.d.clone()
	d.proofs, d.anyProof = nil, false

	set := func(k string, v any, ok bool) {
		if ok {
			d.doc[k] = v
		} else {
			delete(d.doc, k)
		}
	}

	var c *verifiable.Credential

	when := func() *time.Time {
		if r.Chance(1, 8, "no-date") {
			return nil
		}

		return stamp(stamps[r.Choose(len(stamps), "date")])
	}

	how := ""

	switch r.Choose(11, "change") {
	case 0:
		how = "WithModifiedID"
		id := []string{"urn:new", "", "https://x.example/1"}[r.Choose(3, "id")]
		c = o.c.WithModifiedID(id)
		set("id", id, id != "")
	case 1:
		how = "WithModifiedIssued"
		d.from = when()
		c = o.c.WithModifiedIssued(wrap(d.from))
	case 2:
		how = "WithModifiedExpired"
		d.to = when()
		c = o.c.WithModifiedExpired(wrap(d.to))
	case 3:
		how = "WithModifiedValidFrom"
		d.from = when()
		c = o.c.WithModifiedValidFrom(wrap(d.from))
	case 4:
		how = "WithModifiedValidUntil"
		d.to = when()
		c = o.c.WithModifiedValidUntil(wrap(d.to))
	case 5:
		how = "WithModifiedContext"
		ctx := [][]string{{world.V1}, {world.V2}, {world.V1, world.Sim}, {world.V2, world.Sim}}[r.Choose(4, "context")]
		c = o.c.WithModifiedContext(ctx)
		_, rest := stringsOf(d.doc["@context"])
		l := []any{}

		for _, s := range ctx {
			l = append(l, s)
		}

		set("@context", append(l, rest...), true)
	case 6:
		how = "WithModifiedStatus"

		if r.Chance(1, 4, "none") {
			if c = o.c.WithModifiedStatus(); r.Chance(1, 2, "nil") {
				c = o.c.WithModifiedStatus(nil)
			}

			set("credentialStatus", nil, false)
		} else {
			st := w.typedID("status", 3, true)
			c = o.c.WithModifiedStatus(statusOf(world.Clone(st))...)
			set("credentialStatus", st, true)
		}
	case 7:
		how = "WithModifiedRefreshService"

		if r.Chance(1, 4, "none") {
			c = o.c.WithModifiedRefreshService(nil)
			set("refreshService", nil, false)
		} else {
			v := w.typedID("refresh", 1, true)
			t := typedsOf(world.Clone(v))
			c = o.c.WithModifiedRefreshService(&t[0])
			set("refreshService", v, true)
		}
	case 8:
		how = "WithModifiedIssuer"
		is := []any{"did:sim:new", world.J{"id": "did:sim:new", "name": "N"}, world.J{"id": "did:sim:new"}, nil}[r.Choose(4, "issuer")]
		c = o.c.WithModifiedIssuer(issuerOf(is))
		set("issuer", is, is != nil)
	case 9:
		how = "WithModifiedSubject"
		sub := []any{world.J{"id": "did:sim:s2", "a": 1.0}, "did:sim:s3", []any{world.J{"id": "x"}, world.J{"b": nil}}, nil, world.J{"only": "claims"}}[r.Choose(5, "subject")]
		c = o.c.WithModifiedSubject(subjectsOf(world.Clone(sub)))
		set("credentialSubject", sub, sub != nil)
	case 10:
		how = "SetCustomField"
		c = o.c.WithModifiedID(o.c.Contents().ID) // not on the shared object
		c.SetCustomField("mine", world.J{"x": []any{1.0}})
		set("mine", world.J{"x": []any{1.0}}, true)
	}

	return w.note(how, c, d)
}

// pass sends the credential through one of its forms and reads it again.
func (w *formWorld) pass(o *formObj) *formObj {
	r := w.r
	d := o.d.clone()

	var (
		c   *verifiable.Credential
		b   []byte
		err error
		how string
	)

	subs := subjectsOf(d.doc["credentialSubject"])
	enveloping := len(subs) == 1 && subs[0].ID != ""
	min := r.Chance(1, 2, "minimize")
	enveloped := func(how string) {
		if !enveloping && err == nil {
			r.Violate("envelope", how, "%s made a token of a credential without exactly one identified subject", how)
		}

		d.seconds, d.anyProof = true, true
	}

	step := r.Choose(9, "form")
	if step >= 7 && !o.presentable() {
		step = 0
	}

	switch step {
	case 0:
		if how = "MarshalJSON"; o.c.IsJWT() || o.c.IsCWT() {
			how = "MarshalJSON of a token"
		}

		if b, err = o.c.MarshalJSON(); err == nil {
			c, err = verifiable.ParseCredential(b, w.opts...)
		}
	case 1:
		how = "MarshalAsJSONLD"
		if b, err = o.c.MarshalAsJSONLD(); err == nil {
			c, err = verifiable.ParseCredential(b, w.opts...)
		}
	case 2:
		how = "ToRawJSON"
		c, err = verifiable.ParseCredentialJSON(o.c.ToRawJSON(), w.opts...)
	case 3:
		how = fmt.Sprintf("CreateUnsecuredJWTVC minimize=%v", min)

		var x *verifiable.Credential
		if x, err = o.c.CreateUnsecuredJWTVC(min); err == nil {
			c, err = verifiable.ParseCredential([]byte(x.JWTEnvelope.JWT), w.opts...)
		}

		enveloped(how)
	case 4, 5:
		how = fmt.Sprintf("CreateSignedJWTVC minimize=%v", min)

		var x *verifiable.Credential
		if x, err = o.c.CreateSignedJWTVC(min, verifiable.EdDSA, w.cr, w.a.KID(0)); err == nil {
			w.objs = append(w.objs, w.note(how+" (signed)", x, o.d.clone()))

			if b, err = x.MarshalJSON(); err == nil {
				if r.Chance(1, 2, "bare") {
					s, _ := x.ToJWTString()
					b = []byte(s)

					if r.Chance(1, 2, "quoted") {
						b = []byte(`"` + s + `"`)
					}

					if r.Chance(1, 2, "as-json") {
						how = "JWTVCToJSON of " + how
						b, err = verifiable.JWTVCToJSON(b)
					}
				}
			}

			if err == nil {
				c, err = verifiable.ParseCredential(b, w.opts...)
			}
		}

		enveloped(how)
	case 6:
		how = "CreateSignedCOSEVC"

		var x *verifiable.Credential
		if x, err = o.c.CreateSignedCOSEVC(coseAlg(w.a.Cur[0].Key.Kind), w.cr, w.a.KID(0)); err == nil {
			switch r.Choose(3, "cwt") {
			case 0:
				b, err = x.MarshalAsCWTLD()
			case 1:
				var s string
				s, err = x.MarshalAsCWTLDHex()
				b = []byte(s)
			case 2:
				b, err = x.MarshalJSON()
			}

			if err == nil {
				c, err = verifiable.ParseCredential(b, w.opts...)
			}
		}

		enveloped(how)
	case 8:
		how = "MarshalledCredentials"

		var vp *verifiable.Presentation
		if vp, err = verifiable.NewPresentation(verifiable.WithCredentials(o.c), verifiable.WithBaseContext([]string{world.V1, world.V2}[r.Choose(2, "vp-v2")])); err == nil {
			var l []verifiable.MarshalledCredential
			if l, err = vp.MarshalledCredentials(); err == nil && len(l) != 1 {
				r.Violate("presentation", "credentials", "the presentation of one credential hands out %d", len(l))

				return nil
			}

			if err == nil {
				b = l[0]
				c, err = verifiable.ParseCredential(b, w.opts...)
			}
		}
	case 7:
		how = "presentation"

		var vp *verifiable.Presentation
		if vp, err = verifiable.NewPresentation(verifiable.WithCredentials(o.c), verifiable.WithBaseContext([]string{world.V1, world.V2}[r.Choose(2, "vp-v2")])); err == nil {
			if b, err = vp.MarshalJSON(); err == nil {
				var q *verifiable.Presentation
				if q, err = verifiable.ParsePresentation(b, w.popts...); err == nil {
					if n := len(q.Credentials()); n != 1 {
						r.Violate("presentation", "credentials", "the presentation of one credential has %d\n%s", n, b)

						return nil
					}

					c = q.Credentials()[0]
				}
			}
		}
	}

	if err != nil {
		if !enveloping && step >= 3 && step <= 6 {
			r.Eval("not enveloped: %s", firstWord(how))

			return nil
		}

		r.Violate("refused", how, "a credential does not pass through %s: %v\nit is %.1500s\nwritten %.1500s", how, err, o.text, b)

		return nil
	}

	if r.Failed() {
		return nil
	}

	if o.c.IsCWT() || o.c.IsJWT() {
		d.anyProof, d.seconds = true, true
	}

	if step <= 2 && !o.c.IsCWT() && !o.c.IsJWT() {
		w.exact(how, c, o.c.ToRawJSON())
	}

	return w.note("parse of "+how, c, d)
}

// show checks presentations made of the history's credentials.
func (w *formWorld) show() {
	r := w.r

	var (
		cs  []*verifiable.Credential
		os  []*formObj
		vcs []any
	)

	for i, n := 0, r.Choose(4, "shown"); i < n; i++ {
		o := w.objs[r.Choose(len(w.objs), "which")]
		if !o.presentable() {
			continue
		}

		cs, os = append(cs, o.c), append(os, o)
	}

	base := []string{world.V1, world.V2}[r.Choose(2, "vp-v2")]
	ctx := []any{base}

	switch r.Choose(4, "vp-context") {
	case 0:
		ctx = append(ctx, world.Sim)
	case 1:
		ctx = append(ctx, world.J{"local": "https://sim.example/local#"})
	case 2:
		ctx = append(ctx, world.Sim, world.J{"local": "https://sim.example/local#"}, "https://sim.example/after/v1")
	}

	doc := world.J{"@context": ctx, "type": []any{"VerifiablePresentation", "Extra"}[:r.N(1, 2, "types")]}

	if r.Chance(1, 2, "id") {
		doc["id"] = "urn:vp:1"
	}

	holder := []any{nil, w.a.DID, w.a.DID, world.J{"id": w.a.DID}, world.J{"id": w.a.DID, "name": "H"}}[r.Choose(5, "holder")]
	if holder != nil {
		doc["holder"] = holder
	}

	if r.Chance(1, 2, "custom") {
		doc["presentation_submission"] = world.J{"descriptor_map": []any{world.J{"id": "d"}}}
	}

	if r.Chance(1, 4, "proof") {
		doc["proof"] = world.J{"type": "Ed25519Signature2018", "created": "2024-01-01T00:00:00Z", "jws": "a..b", "proofPurpose": "authentication", "verificationMethod": w.a.KID(0), "challenge": "c", "more": []any{1.0}}
	}

	popts := w.popts

	var (
		vp  *verifiable.Presentation
		err error
		how = "parsed"
	)

	if r.Chance(1, 2, "build") {
		how = "built"

		if vp, err = verifiable.NewPresentation(verifiable.WithBaseContext(base), verifiable.WithCredentials(cs...)); err != nil {
			r.Violate("refused", "NewPresentation", "%v", err)

			return
		}

		vp.Context, vp.CustomContext = stringsOf(world.Clone(any(ctx)))
		vp.Type, _ = stringsOf(doc["type"])
		vp.ID, _ = doc["id"].(string)

		if m, ok := holder.(world.J); ok {
			doc["holder"] = m["id"] // only a parsed presentation may have more
		}

		vp.Holder, _ = doc["holder"].(string)
		vp.CustomFields = verifiable.CustomFields{}

		if v, ok := doc["presentation_submission"]; ok {
			vp.CustomFields["presentation_submission"] = v
		}

		if p, ok := doc["proof"].(world.J); ok {
			vp.Proofs = []verifiable.Proof{verifiable.Proof(world.CloneJ(p))}
		}
	} else {
		for _, c := range cs {
			u, e := c.ToUniversalForm()
			if e != nil {
				r.Violate("refused", "ToUniversalForm", "%v", e)

				return
			}

			vcs = append(vcs, u)
		}

		j := world.Clone(any(doc)).(world.J)
		if len(vcs) == 1 && r.Chance(1, 2, "single") {
			j["verifiableCredential"] = vcs[0]
		} else if len(vcs) > 0 {
			j["verifiableCredential"] = vcs
		}

		if vp, err = verifiable.ParsePresentation(world.Enc(j), popts...); err != nil {
			r.Violate("refused", "ParsePresentation", "%v\n%s", err, world.Enc(j))

			return
		}
	}

	vp0, text := vp, ""

	for i, n := 0, r.N(1, 4, "vp-steps"); i < n && !r.Failed(); i++ {
		w.sameVP(how, vp, doc, os)

		if r.Failed() {
			return
		}

		if i == 0 {
			text = vpText(vp0)
		}

		var b []byte

		min := r.Chance(1, 2, "minimize")

		switch r.Choose(6, "vp-form") {
		case 0:
			how = "clone"
			token := vp.IsJWT() || vp.IsCWT()

			if vp = vp.Clone(); token {
				continue // a token says what it said
			}

			for n := r.Choose(4, "edits"); n > 0; n-- {
				doc = w.editVP(vp, doc)
			}

			more := w.objs[r.Choose(len(w.objs), "more")]
			if !more.presentable() {
				continue
			}

			vp.AddCredentials(more.c)
			os = append(append([]*formObj{}, os...), more)

			continue
		case 1, 2:
			how = "MarshalJSON"
			b, err = vp.MarshalJSON()
		case 3:
			how = "JWT"

			var x *verifiable.Presentation
			if x, err = vp.CreateJWTVP([]string{"aud"}, verifiable.EdDSA, w.cr, w.a.KID(0), min); err == nil {
				if b, err = x.MarshalJSON(); err == nil && r.Chance(1, 2, "bare") {
					b = []byte(x.JWT)
				}
			}
		case 4:
			how = "unsecured JWT"

			var cl *verifiable.JWTPresClaims
			if cl, err = vp.JWTClaims(nil, min); err == nil {
				var s string
				s, err = cl.MarshalUnsecuredJWT()
				b = []byte(s)
			}
		case 5:
			how = "CWT"

			var x *verifiable.Presentation
			if x, err = vp.CreateCWTVP([]string{"aud"}, coseAlg(w.a.Cur[0].Key.Kind), w.cr, w.a.KID(0), min); err == nil {
				if b, err = x.MarshalCBOR(); r.Chance(1, 3, "json") {
					b, err = x.MarshalJSON()
				}
			}
		}

		var q *verifiable.Presentation
		if err == nil {
			q, err = verifiable.ParsePresentation(b, popts...)
		}

		if err != nil {
			r.Violate("refused", "presentation "+how, "a presentation does not pass through %s: %v\n%.3000s", how, err, b)

			return
		}

		if m, ok := doc["holder"].(world.J); ok && (how == "JWT" || how == "CWT" && q.IsCWT() || how == "unsecured JWT") {
			doc["holder"] = m["id"] // the issuer claim has the last word
		}

		vp, how = q, "parse of "+how
	}

	w.sameVP(how, vp, doc, os)

	if t := vpText(vp0); text != "" && t != text && !r.Failed() {
		r.Violate("ancestor", "presentation", "a presentation changed while others were made from it:\n%s\n%s", text, t)
	}
}

// editVP writes to the members of a copy and returns what it says from then on.
func (w *formWorld) editVP(vp *verifiable.Presentation, doc world.J) world.J {
	r := w.r
	doc = world.CloneJ(doc)

	switch r.Choose(6, "edit") {
	case 0:
		vp.ID = fmt.Sprintf("urn:vp:%d", 2+r.Choose(3, "new-id"))
		doc["id"] = vp.ID
	case 1:
		vp.Holder = "did:sim:other"
		doc["holder"] = vp.Holder
	case 2:
		vp.Holder = ""
		delete(doc, "holder")
	case 3:
		if vp.CustomFields == nil {
			vp.CustomFields = verifiable.CustomFields{}
		}

		k := []string{"presentation_submission", "extra"}[r.Choose(2, "field")]
		v := []any{false, nil, "", 0.0, world.J{}, []any{"x"}, "text"}[r.Choose(7, "value")]
		vp.CustomFields[k], doc[k] = v, v
	case 4:
		vp.Type[len(vp.Type)-1] = "VerifiablePresentation"

		ts := []any{}
		for _, t := range vp.Type {
			ts = append(ts, t)
		}

		doc["type"] = ts
	case 5:
		p := world.J{"type": "Ed25519Signature2018", "created": "2024-02-02T00:00:00Z", "jws": "c..d", "proofPurpose": "authentication", "verificationMethod": w.a.KID(0)}
		if len(vp.Proofs) == 0 {
			vp.Proofs, doc["proof"] = append(vp.Proofs, verifiable.Proof(p)), world.CloneJ(p)
		} else {
			vp.Proofs[0], doc["proof"] = verifiable.Proof(p), world.CloneJ(p)
		}
	}

	return doc
}

func vpText(vp *verifiable.Presentation) string {
	b, err := vp.MarshalJSON()

	return string(b) + fmt.Sprint(err, len(vp.Credentials()))
}

func (w *formWorld) sameVP(how string, vp *verifiable.Presentation, doc world.J, os []*formObj) {
	r := w.r
	r.Eval("presentation %s: %d credentials, members %d", how, len(os), len(doc))

	got := world.J{"type": vp.Type}
	ctx := []any{}

	for _, s := range vp.Context {
		ctx = append(ctx, s)
	}

	got["@context"] = append(ctx, vp.CustomContext...)

	for k, v := range vp.CustomFields {
		got[k] = v
	}

	if vp.ID != "" {
		got["id"] = vp.ID
	}

	if vp.Holder != "" {
		got["holder"] = vp.Holder
	}

	want := canonDoc(doc)
	if m, ok := want["holder"].(world.J); ok {
		want["holder"] = m["id"]
	}

	delete(want, "proof")

	if g := canonDoc(got); !world.Same(g, want) {
		r.Violate("vp-contents", how, "the presentation after %s says %s, expected %s", how, world.Enc(g), world.Enc(want))

		return
	}

	if n := len(list(doc["proof"])); len(vp.Proofs) != n {
		r.Violate("vp-proofs", how, "the presentation after %s has %d proofs, expected %d", how, len(vp.Proofs), n)

		return
	}

	if len(vp.Credentials()) != len(os) {
		r.Violate("vp-credentials", how, "the presentation after %s has %d credentials, expected %d", how, len(vp.Credentials()), len(os))

		return
	}

	for i, c := range vp.Credentials() {
		d := os[i].d.clone()
		if os[i].c.IsCWT() || os[i].c.IsJWT() {
			d.anyProof, d.seconds = true, true
		}

		if m := d.against(c.ToRawJSON()); m != "" {
			r.Violate("vp-credential", how+": "+firstWord(m), "credential %d of the presentation after %s: %s", i, how, m)

			return
		}

		if m := d.contents(c.Contents()); m != "" {
			r.Violate("vp-credential", how+": "+firstWord(m), "contents of credential %d of the presentation after %s: %s", i, how, m)

			return
		}
	}

	// what is written down says all of it too
	if vp.IsJWT() || vp.IsCWT() {
		return
	}

	b, err := vp.MarshalJSON()
	if err != nil {
		r.Violate("refused", "MarshalJSON", "%v", err)

		return
	}

	g := canonDoc(world.Dec(b))
	delete(g, "verifiableCredential")

	x := canonDoc(doc)
	for _, j := range []world.J{g, x} {
		if p, ok := j["proof"]; ok {
			j["proof"] = list(p)
		}

		if m, ok := j["holder"].(world.J); ok && len(m) == 1 {
			j["holder"] = m["id"]
		}
	}

	if !world.Same(g, x) {
		r.Violate("vp-json", how, "the JSON of the presentation after %s says %s, expected %s", how, world.Enc(g), world.Enc(x))
	}
}

// times: a date keeps its moment and, where it was written down, its spelling.
func (w *formWorld) times() {
	r := w.r
	text := stamps[r.Choose(len(stamps), "stamp")]
	want := stamp(text)
	spelt := r.Chance(1, 2, "spelt")

	r.Eval("time wrapper: spelt %v", spelt)

	var (
		t   *vctime.TimeWrapper
		err error
	)

	if !spelt {
		at := want.In([]*time.Location{time.UTC, time.Local, time.FixedZone("", -3600)}[r.Choose(3, "location")])
		if at.Year() > 9999 {
			at = *want // no such year in JSON
		}

		t = vctime.NewTime(at)
	} else if t, err = vctime.ParseTimeWrapper(text); err != nil {
		r.Violate("time", "parse", "%q is no time: %v", text, err)

		return
	}

	for i := 0; i < 3; i++ {
		b, err := json.Marshal(t)
		if err == nil {
			t = &vctime.TimeWrapper{}
			err = json.Unmarshal(b, t)
		}

		if s := string(b); err != nil || !t.Time.Equal(*want) || spelt && s != `"`+text+`"` {
			r.Violate("time", "json", "%q (spelt %v) is %s in JSON, which reads %v (%v)", text, spelt, b, t, err)

			return
		}

		if d := (&formDoc{}); !d.sameTime(want, t.FormatToString()) {
			r.Violate("time", "text", "%q is %q in text", text, t.FormatToString())

			return
		}
	}
}

func runForms(r *core.Run) {
	r.Configure(core.Params{})

	reg := world.NewRegistry(r)
	w := &formWorld{r: r, a: world.NewActor(r, reg, "did:sim:issuer0", world.Ed)}
	w.cr = world.Creator(&world.Signer{K: w.a.Cur[0].Key, R: r})
	w.opts = []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck()}

	net := world.NewNet(r)
	net.Serve("https://res.example/a", &world.Resource{Body: []byte("resource")})
	net.Serve("https://res.example/b", &world.Resource{Body: []byte("other")})

	prev := verifiable.DefaultRelatedResourceValidator
	verifiable.DefaultRelatedResourceValidator = verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(net))

	defer func() { verifiable.DefaultRelatedResourceValidator = prev }()

	loader := world.NewLoader(r)
	w.opts = append(w.opts, verifiable.WithJSONLDDocumentLoader(loader))
	w.popts = []verifiable.PresentationOpt{verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(loader)}

	d := w.gen()
	j := w.json(d)

	var (
		c   *verifiable.Credential
		err error
		how string
	)

	switch r.Choose(3, "origin") {
	case 0:
		how = "ParseCredential"
		c, err = verifiable.ParseCredential(world.Enc(j), w.opts...)
	case 1:
		how = "ParseCredentialJSON"
		c, err = verifiable.ParseCredentialJSON(j, w.opts...)
	case 2:
		how = "CreateCredential"
		c, err = w.build(d)
	}

	if err != nil {
		r.Violate("refused", how, "%s: %v\n%s", how, err, world.Enc(j))

		return
	}

	root := w.note(how, c, d)
	if how != "CreateCredential" {
		w.exact(how, c, j)
	}

	w.objs = append(w.objs, root)

	if w.times(); r.Failed() {
		return
	}

	history := func(n int) func() {
		return func() {
			o := root

			for i := 0; i < n && !r.Failed(); i++ {
				// another branch of the history may begin anywhere
				if r.Chance(1, 4, "branch") {
					o = w.objs[r.Choose(len(w.objs), "from")]
				}

				var x *formObj

				p := core.Do(func() {
					if r.Chance(1, 2, "change") {
						x = w.change(o)
					} else {
						x = w.pass(o)
					}
				})
				if p != "" {
					r.Violate("crash", core.PanicSite(p), "%s\non %.2000s", p, o.text)

					return
				}

				if x != nil {
					o = x
					w.objs = append(w.objs, x)
				}

			}
		}
	}

	if r.Chance(1, 3, "branches") {
		r.Parallel("users", history(r.N(1, 6, "steps")), history(r.N(1, 6, "steps")))
	} else {
		history(r.N(1, 10, "steps"))()
	}

	for i, n := 0, r.Choose(3, "presentations"); i < n && !r.Failed(); i++ {
		if p := core.Do(w.show); p != "" {
			r.Violate("crash", core.PanicSite(p), "%s", p)
		}
	}

	for _, o := range w.objs {
		if r.Failed() {
			return
		}

		if t := o.now(); t != o.text {
			r.Violate("ancestor", firstWord(o.how), "an object (after %s) changed while others were made from it:\n%s\n%s", o.how, o.text, t)
		}
	}
}
