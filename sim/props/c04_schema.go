package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"reflect"
	"slices"
	"strings"
	"time"
	"unsafe"

	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C04", Title: "A credential is accepted only if it conforms to the schemas it names", Run: runSchemas,
		Rule:    "one validation of one credential against its schemas, its verdict compared with an independent evaluation of the schema documents the network delivered and may still be cached",
		Measure: "entry point x schema reference shape x document defect x validation options x cache x delivery fault x verdict",
		Real:    []string{"verifiable (schema loader, expirable cache, default schemas, credential parsing and validation)", "gojsonschema", "fastcache", "net/http client"},
		Stub:    []string{"HTTP servers and network", "JSON-LD context server", "goroutine scheduling", "clock"},
	})
}

type schemaSpec struct {
	body []byte
	ok   func(doc world.J) bool // nil: not a usable schema
}

type schemaWorld struct {
	r      *core.Run
	net    *world.Net
	urls   []string
	bodies map[string]*schemaSpec // by body
	loader *verifiable.CredentialSchemaLoader
	life   time.Duration // of cached schemas, -1: no cache
	seq    int
}

func (w *schemaWorld) serve(url string) {
	r := w.r
	w.seq++

	id := fmt.Sprintf("%s#%d", url, w.seq)
	s := world.J{"$schema": "http://json-schema.org/draft-07/schema#", "title": id, "type": "object"}
	x := &schemaSpec{}

	sub := func(d world.J) world.J {
		o, _ := d["credentialSubject"].(world.J)

		return o
	}

	switch r.Choose(9, "schema") {
	case 0: // a claim must be there
		k := []string{"grade", "level", "serial"}[r.Choose(3, "claim")]
		s["properties"] = world.J{"credentialSubject": world.J{"type": "object", "required": []any{k}}}
		x.ok = func(d world.J) bool {
			_, ok := sub(d)[k]

			return sub(d) == nil || ok
		}
	case 1: // a number in bounds
		n := float64(r.N(1, 9, "min"))
		s["properties"] = world.J{"credentialSubject": world.J{"properties": world.J{"grade": world.J{"type": "number", "minimum": n}}}}
		x.ok = func(d world.J) bool {
			g, ok := sub(d)["grade"]
			f, num := g.(float64)

			return !ok || num && f >= n
		}
	case 2: // one of some values
		v := []any{"gold", "silver"}[:r.N(1, 2, "values")]
		s["properties"] = world.J{"credentialSubject": world.J{"properties": world.J{"level": world.J{"enum": v}}}}
		x.ok = func(d world.J) bool {
			l, ok := sub(d)["level"]

			for _, e := range v {
				if e == l {
					return true
				}
			}

			return !ok
		}
	case 3: // a member of the credential itself
		s["required"] = []any{"customField"}
		x.ok = func(d world.J) bool {
			_, ok := d["customField"]

			return ok
		}
	case 4: // nothing else
		s["properties"] = world.J{"credentialSubject": world.J{"properties": world.J{"id": world.J{}, "serial": world.J{}, "level": world.J{}, "grade": world.J{}}, "additionalProperties": false}}
		x.ok = func(d world.J) bool {
			for k := range sub(d) {
				if k != "id" && k != "serial" && k != "level" && k != "grade" {
					return false
				}
			}

			return true
		}
	case 5:
		x.ok = func(world.J) bool { return true }
	case 6:
		s["not"] = world.J{}
		x.ok = func(world.J) bool { return false }
	case 7: // by reference
		s["properties"] = world.J{"credentialSubject": world.J{"$ref": "#/definitions/s"}}
		s["definitions"] = world.J{"s": world.J{"required": []any{"level"}}}
		x.ok = func(d world.J) bool {
			_, ok := sub(d)["level"]

			return sub(d) == nil || ok
		}
	case 8:
		x.body = []byte([]string{"null", "[]", "5", `"x"`, "", "{", `{"type":7}`, "<html>", `{"type":"nothing"}`, `{"properties":[]}`}[r.Choose(10, "odd")])
	}

	if x.body == nil {
		x.body = world.Enc(s)
	}

	w.bodies[string(x.body)] = x
	w.net.Serve(url, &world.Resource{Body: x.body, Type: "application/schema+json"})
}

// resetCache empties a fastcache, so that its chunks are used again.
func resetCache(c *verifiable.ExpirableSchemaCache) {
	v := reflect.ValueOf(c).Elem()

	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Interface {
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()

			if x, ok := f.Interface().(interface{ Reset() }); ok {
				x.Reset()
			}
		}
	}
}

// plainCache is a cache without expiry, as an application may bring its own.
type plainCache struct{ m map[string][]byte }

func (c *plainCache) Put(k string, v []byte) { c.m[k] = append([]byte{}, v...) }

func (c *plainCache) Get(k string) ([]byte, bool) {
	v, ok := c.m[k]

	return v, ok
}

func runSchemas(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 4, 32}[r.Choose(3, "preempt")]})

	w := &schemaWorld{r: r, net: world.NewNet(r), bodies: map[string]*schemaSpec{}, life: -1}

	for i, n := 0, r.N(1, 3, "schemas"); i < n; i++ {
		u := fmt.Sprintf("https://schema%d.example/s.json", i)

		switch {
		case i > 0 && r.Chance(1, 2, "same-path"):
			u = fmt.Sprintf("%s?v=%d", strings.SplitN(w.urls[i-1], "?", 2)[0], i)
		case i > 0 && r.Chance(1, 4, "same-host"):
			u = strings.Replace(w.urls[i-1], "/s.json", fmt.Sprintf("/S%d.json", i), 1)
		}

		w.urls = append(w.urls, u)
		w.serve(u)
	}

	if r.Chance(1, 2, "faults") {
		w.net.Rate = []int{80, 300}[r.Choose(2, "rate")]
	}

	c := w.net.Client()
	if r.Chance(1, 2, "timeout") {
		c = &http.Client{Transport: w.net, Timeout: 30 * time.Second}
	}

	b := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(c)

	switch r.Choose(4, "cache") {
	case 1:
		w.life = 1000000 * time.Hour
		b = b.SetCache(&plainCache{m: map[string][]byte{}})
	case 2, 3:
		w.life = []time.Duration{time.Second, time.Minute, time.Hour}[r.Choose(3, "life")]
		sc := verifiable.NewExpirableSchemaCache(1, w.life)

		defer resetCache(sc)

		b = b.SetCache(sc)
	}

	w.loader = b.Build()

	var tasks []func()

	for i, n := 0, r.N(1, 3, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			for op, n := 0, r.N(1, 4, "ops"); op < n && !r.Failed(); op++ {
				w.check()

				switch r.Choose(5, "between") {
				case 1:
					r.Sleep(time.Duration(r.N(1, 90, "pause")) * time.Second)
				case 2:
					r.Sleep(2 * time.Hour)
				case 3, 4:
					w.serve(w.urls[r.Choose(len(w.urls), "update")])
				}
			}
		})
	}

	r.Parallel("verifier", tasks...)

	if o := w.net.Open(); len(o) > 0 && !r.Failed() {
		r.Violate("leak", "body", "response bodies that were never closed: %q", o)
	}
}

var schemaTypes = []string{"JsonSchema", "JsonSchemaValidator2018", "JsonSchemaCredential", "OtherSchema"}

func (w *schemaWorld) check() {
	r := w.r
	v2 := r.Chance(1, 2, "v2")
	w.seq++

	doc := world.GenVC(r, world.VCSpec{Issuer: "did:sim:issuer", Subject: "did:sim:subject", V2: v2, Flat: true, Seq: w.seq})
	sub := doc["credentialSubject"].(world.J)

	if r.Chance(1, 2, "grade") {
		sub["grade"] = []any{0.0, 3.0, 5.5, 9.0, "high"}[r.Choose(5, "g")]
	}

	if r.Chance(1, 2, "level") {
		sub["level"] = []any{"gold", "silver", "bronze"}[r.Choose(3, "l")]
	}

	if r.Chance(1, 2, "no-others") {
		for k := range world.CloneJ(sub) {
			if strings.HasPrefix(k, "claim") || k == "name" {
				delete(sub, k)
			}
		}
	}

	// the schemas it names
	var urls []string // of supported ones

	shape := []string{"none", "one", "array-of-one", "two", "three"}[r.Choose(5, "shape")]
	n := map[string]int{"none": 0, "one": 1, "array-of-one": 1, "two": 2, "three": 3}[shape]

	var list []any

	for i := 0; i < n; i++ {
		t := schemaTypes[[]int{0, 0, 0, 1, 1, 2, 3}[r.Choose(7, "type")]]
		u := w.urls[r.Choose(len(w.urls), "url")]

		if r.Chance(1, 12, "missing") {
			u = "https://nowhere.example/s.json"
		}

		if t == schemaTypes[0] || t == schemaTypes[1] {
			urls = append(urls, u)
		}

		list = append(list, world.J{"id": u, "type": t})
		shape += " " + t[:5]
	}

	switch {
	case strings.HasPrefix(shape, "one"):
		doc["credentialSchema"] = list[0]
	case n > 0:
		doc["credentialSchema"] = list
	}

	// what the data model itself demands
	defect := ""

	if r.Chance(1, 3, "defect") {
		ks := []string{"issuer", "credentialSubject", "type", "credentialStatus.type", "credentialStatus.id", "evidence.type", "refreshService.type",
			"proof.type", "issuer.id", "context", "until"}
		if v2 {
			ks = append(ks, "subject-empty", "from", "termsOfUse.type")
		} else {
			ks = append(ks, "issuanceDate", "issuanceDate")
		}

		defect = ks[r.Choose(len(ks), "gone")]
		top, member, in := strings.Cut(defect, ".")

		switch {
		case in:
			m := world.J{"id": "urn:sim:part", "type": "SimPart", "name": "part"}
			delete(m, member)
			doc[top] = m

			if (top == "evidence" || top == "proof" || v2) && top != "issuer" && r.Chance(1, 2, "in-list") {
				doc[top] = []any{world.J{"id": "urn:sim:whole", "type": "SimPart", "proofPurpose": "authentication", "verificationMethod": "did:sim:x#y"}, m}
			}

			if top == "credentialStatus" && !v2 {
				doc[top] = m
			}
		case defect == "type":
			doc["type"] = []any{"SimCredential"}
		case defect == "context":
			doc["@context"] = []any{world.Sim}
		case defect == "until":
			k := "expirationDate"
			if v2 {
				k = "validUntil"
			}

			doc[k] = []any{"tomorrow", "2035-13-01T00:00:00Z", "2035/01/01"}[r.Choose(3, "date")]
		case defect == "from":
			doc["validFrom"] = "yesterday"
		case defect == "subject-empty":
			doc["credentialSubject"] = world.J{}
		default:
			delete(doc, defect)
		}
	}

	if r.Chance(1, 4, "more-contexts") {
		cs, _ := doc["@context"].([]any)
		doc["@context"] = append(slices.Clone(cs), []any{"https://w3id.org/security/suites/ed25519-2020/v1", "https://w3id.org/security/suites/jws-2020/v1"}[:r.N(1, 2, "n")]...)
	}

	l := world.NewLoader(r)
	opts := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(l), verifiable.WithDisabledRelatedResourceCheck(),
		verifiable.WithCredentialSchemaLoader(w.loader)}

	mode := []string{"", "", "", "", "strict", "no-custom", "own-schema", "own-loader", "base-context", "ld-only", "off", "base-extended", "base-extended", "base-only", "relaxed"}[r.Choose(15, "mode")]

	const own = `{"type":"object","properties":{"credentialSubject":{"type":"object","required":["grade"]}}}`

	ownOK := func(d world.J) bool {
		s, ok := d["credentialSubject"].(world.J)
		_, g := s["grade"]

		return d["credentialSubject"] == nil || ok && g
	}

	base := world.V1
	if v2 {
		base = world.V2
	}

	constraint, relaxed := "", ""
	custom := len(urls) > 0
	useDefault := !custom
	useOwn := false

	switch mode {
	case "strict":
		opts = append(opts, verifiable.WithStrictValidation())
	case "no-custom":
		opts = append(opts, verifiable.WithNoCustomSchemaCheck())
		custom, useDefault = false, true
	case "own-schema":
		opts = append(opts, verifiable.WithSchema(own))
		custom, useDefault, useOwn = false, false, true
	case "own-loader":
		opts = append(opts, verifiable.WithDefaultSchemaLoader(func(*verifiable.CredentialContents) string { return own }))
		custom, useDefault, useOwn = false, false, true
	case "base-context":
		opts = append(opts, verifiable.WithBaseContextExtendedValidation(base, []string{world.Sim}, []string{"SimCredential"}))
		constraint = notAllowed(doc, []string{base, world.Sim}, []string{"VerifiableCredential", "SimCredential"})
	case "base-extended": // what else the credential may say it is
		ctxs, types := []string{world.Sim, "https://other.example/v1"}, []string{"SimCredential", "Other"}
		ctxs, types = ctxs[r.Choose(2, "allowed-contexts"):], types[r.Choose(2, "allowed-types"):]

		if r.Chance(1, 2, "another-type") {
			ts, _ := doc["type"].([]any)
			doc["type"] = append(slices.Clone(ts), []any{"Other", "Third", "SimCredential2"}[r.Choose(3, "type")])
		}

		if r.Chance(1, 3, "another-context") {
			cs, _ := doc["@context"].([]any)
			doc["@context"] = append(slices.Clone(cs), []any{"https://other.example/v1", "https://other.example/v2", world.Sim + "/"}[r.Choose(3, "context")])
		}

		opts = append(opts, verifiable.WithBaseContextExtendedValidation(base, slices.Clone(ctxs), slices.Clone(types)))
		constraint = notAllowed(doc, append(ctxs, base), append(types, "VerifiableCredential"))
	case "base-only":
		if r.Chance(2, 3, "plain") {
			doc["@context"], doc["type"] = []any{base}, []any{"VerifiableCredential"}

			if defect == "context" || defect == "type" {
				defect = ""
			}

			switch r.Choose(6, "but") {
			case 0:
				doc["type"] = []any{"VerifiableCredential", "SimCredential"}
			case 1:
				doc["@context"] = []any{base, world.Sim}
			case 2:
				doc["type"] = "VerifiableCredential"
			}
		}

		other := map[string]string{world.V1: world.V2, world.V2: world.V1}[base]
		given := base

		if r.Chance(1, 6, "other-version") {
			given = other
		}

		opts = append(opts, verifiable.WithBaseContextValidation(given))
		constraint = notAllowed(doc, []string{given}, []string{"VerifiableCredential"})
	case "relaxed": // the data model's own schema, without some mandatory members
		relaxed = []string{"issuer", "credentialSubject", "issuanceDate", "type"}[r.Choose(4, "relaxed")]
		make := verifiable.JSONSchemaLoaderV1

		if v2 {
			make = verifiable.JSONSchemaLoaderV2
		}

		opts = append(opts, verifiable.WithSchema(make(verifiable.WithDisableRequiredField(relaxed))))
		custom, useDefault = false, true
	case "ld-only":
		opts = append(opts, verifiable.WithJSONLDValidation())
		custom, useDefault = false, false
	case "off":
		custom, useDefault = false, false
	}

	entry := []string{"parse", "validate", "validate-jwt"}[r.Choose(3, "entry")]
	if mode == "off" {
		entry = "parse"
		opts = append(opts, verifiable.WithCredDisableValidation())
	}

	start, from := time.Now(), len(w.net.Log)

	var err error

	p := core.Do(func() {
		if entry == "parse" {
			_, err = verifiable.ParseCredential(world.Enc(doc), opts...)

			return
		}

		wire := world.Enc(doc)
		if entry == "validate-jwt" {
			wire = []byte(joinJWT(world.J{"alg": "none"}, world.Enc(world.J{"vc": doc, "iss": "did:sim:issuer"}), nil))
			if v2 {
				wire = []byte(joinJWT(world.J{"alg": "none"}, world.Enc(doc), nil))
			}
		}

		c, e := verifiable.ParseCredential(wire, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck())
		if e != nil {
			err = fmt.Errorf("parsing: %w", e)

			return
		}

		start, from = time.Now(), len(w.net.Log)
		err = c.ValidateCredential(opts...)
	})

	what := fmt.Sprintf("%s (%s, cached for %v) of %s", entry, mode, w.life, world.Enc(doc))

	if p != "" {
		r.Violate("panic", core.PanicSite(p), "%s panicked: %s", what, p)

		return
	}

	explained := false

	if custom {
		seen := map[string]bool{}

		for _, u := range urls {
			some, all, fail := w.used(u, doc, start, from)
			explained = explained || !all || fail // with nothing to use, it has to fetch

			if err == nil && !some && !seen[u] {
				seen[u] = true

				r.Violate("accepted", entry+" "+mode, "a credential passed that does not conform to any document %s may have been: %s\n%s", u, w.history(u), what)

				return
			}
		}
	}

	if constraint != "" {
		explained = true

		if err == nil {
			r.Violate("accepted", entry+" "+mode, "a credential passed though %s\n%s", constraint, what)

			return
		}
	}

	if useDefault && defect != "" {
		explained = true

		if err == nil && defect != relaxed && (entry != "validate-jwt" || defect != "issuer" && defect != "issuanceDate" && defect != "issuer.id") { // a JWT's claims stand in for members
			r.Violate("accepted", entry+" "+mode+" default", "a credential without %s passed\n%s", defect, what)

			return
		}
	}

	if useOwn {
		if ownOK(doc) {
			explained = explained || defect != ""
		} else if explained = true; err == nil {
			r.Violate("accepted", entry+" "+mode, "a credential passed that does not conform to the schema given as an option\n%s", what)

			return
		}
	}

	if err != nil && !explained && defect == "" {
		r.Violate("refused", entry+" "+mode+" "+errKey(err), "a conforming credential was refused: %v\n%s", err, what)

		return
	}

	fault := ""

	for _, x := range w.net.Window(from) {
		if x.Fault != 0 {
			fault = x.FaultName()
		}
	}

	r.Eval("%s %s v2=%v %s %q cache=%v fetched=%v %s ok=%v", entry, mode, v2, shape, defect, w.life >= 0, len(w.net.Window(from)) > 0, fault, err == nil)
}

// used says whether a document conforms to some, and to all, of the schemas a check may have used for a URL, and
// whether fetching it failed meanwhile.
func (w *schemaWorld) used(url string, doc world.J, start time.Time, from int) (some, all, fail bool) {
	all = true

	for i, x := range w.net.Log {
		if x.URL != url {
			continue
		}

		if x.Err || x.Status != 200 || x.Done.IsZero() {
			fail = fail || i >= from

			continue
		}

		// expiry is kept in full seconds
		if i < from && (w.life < 0 || x.Done.Add(w.life+time.Second).Before(start)) {
			continue
		}

		s := w.bodies[string(x.Served)]

		switch {
		case s == nil && json.NewDecoder(bytes.NewReader(x.Served)).Decode(new(any)) == nil:
			some, all = true, false // damaged, but still begins with JSON: it may say anything
		case s == nil || s.ok == nil || !s.ok(doc):
			all = false
		default:
			some = true
		}
	}

	return some, all, fail
}

func (w *schemaWorld) history(url string) (s string) {
	for _, x := range w.net.Log {
		if x.URL == url {
			s += fmt.Sprintf("\n  %v %s %d %s", x.At.Sub(core.Epoch), x.FaultName(), x.Status, x.Served)
		}
	}

	return s
}

// notAllowed says which context or type of a credential is not among those given.
func notAllowed(doc world.J, ctxs, types []string) string {
	for _, k := range []string{"@context", "type"} {
		given := map[string][]string{"@context": ctxs, "type": types}[k]

		l, ok := doc[k].([]any)
		if !ok {
			l = []any{doc[k]}
		}

		for _, x := range l {
			if s, ok := x.(string); ok && !slices.Contains(given, s) {
				return "its " + k + " " + s + " is not allowed"
			}
		}
	}

	return ""
}
