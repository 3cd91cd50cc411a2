package props

import (
	"fmt"
	"net/url"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/didconfig/client"
	"github.com/trustbloc/vc-go/didconfig/verifier"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C02", Title: "A DID and a domain count as linked only if each vouches for the other", Run: runLinkage,
		Rule:    "one verification of one DID against one domain, judged against the configuration bytes the network delivered, the record of what each DID's keys signed, and the DID document versions the registry answered with",
		Measure: "entry shapes and flaws in the configuration x network, registry and context server faults x verdict",
		Real:    []string{"didconfig/client", "didconfig/verifier", "verifiable", "verifiable/lddocument", "jwt", "proof/checker"},
		Stub:    []string{"HTTP network and web server", "DID registry", "JSON-LD context server", "clock"},
	})
}

var lkDomains = []string{"https://rp.example", "https://rp.example:8443", "http://rp.example", "https://evil.example", "rp.example", "shop.example"}

type lkJWT struct {
	by, kid string
	key     *world.Key
	h       world.J
	p       world.J
}

type lkEntry struct {
	val  any // string or object
	flaw string
	did  string
	dom  string
	// who signed it
	jwt *lkJWT
	rec *ldRec
}

type lkConfig struct {
	dom     string
	raw     []byte
	entries []*lkEntry
	flaw    string
}

type lkWorld struct {
	*ldWorld
	net  *world.Net
	jwts []*lkJWT
	pool []*lkEntry
	cur  []*lkConfig // latest per domain
}

var lkFlaws = []string{"", "", "", "", "", "type", "id", "no-expiry", "no-issued", "two-subjects", "no-subject", "empty-subjects", "subject-other", "subject-not-did",
	"subject-no-id", "origin-other", "origin-near", "origin-near", "origin-none", "origin-number", "issuer-other", "issuer-none", "issuer-no-id", "signed-by-other", "forged-kid", "unsigned", "altered", "extra-header",
	"extra-claim", "typ"}

func (w *lkWorld) entry() *lkEntry {
	r := w.r
	a := w.issuers[r.Choose(len(w.issuers), "who")]
	e := &lkEntry{did: a.DID, dom: lkDomains[r.Choose(len(lkDomains), "dom")], flaw: lkFlaws[r.Choose(len(lkFlaws), "flaw")]}
	w.seq++

	sub := world.J{"id": e.did, "origin": e.dom}
	vc := world.J{"@context": []any{world.V1, world.DIDConfig, "https://w3id.org/security/suites/jws-2020/v1", "https://w3id.org/security/suites/ed25519-2020/v1"}, "type": []any{"VerifiableCredential", "DomainLinkageCredential"}, "issuer": e.did,
		"issuanceDate": "2024-01-01T00:00:00Z", "expirationDate": "2030-01-01T00:00:00Z", "credentialSubject": sub}

	other := w.issuers[1-r.Choose(2, "other")]

	if r.Chance(1, 3, "path") && strings.Contains(e.dom, "://") {
		sub["origin"] = e.dom + "/"
	}

	switch e.flaw {
	case "type":
		vc["type"] = []any{"VerifiableCredential"}
	case "id":
		vc["id"] = "urn:uuid:1"
	case "no-expiry":
		delete(vc, "expirationDate")
	case "no-issued":
		delete(vc, "issuanceDate")
	case "two-subjects":
		vc["credentialSubject"] = []any{sub, world.J{"id": "did:sim:more"}}
	case "no-subject":
		delete(vc, "credentialSubject")
	case "empty-subjects":
		vc["credentialSubject"] = []any{}
	case "subject-other":
		sub["id"] = "did:sim:nobody"
	case "subject-not-did":
		sub["id"] = "urn:x"
	case "subject-no-id":
		delete(sub, "id")
	case "origin-other":
		sub["origin"] = lkDomains[(indexOf(lkDomains, e.dom)+1)%len(lkDomains)]
	case "origin-near": // another origin that looks alike
		sch, host, has := strings.Cut(e.dom, "://")
		if !has {
			sch, host = "https", e.dom
		}

		sub["origin"] = []string{sch + "://www." + host, sch + "://a." + host, sch + "://" + host + ".evil.example", sch + "://x" + host, sch + "://" + strings.Split(host, ":")[0] + ":9443",
			sch + "://" + host + "@evil.example", sch + "://" + host[1:], sch + "s://" + host, "https://evil.example/" + host, "https://evil.example#" + host, "*"}[r.Choose(11, "near")]
	case "origin-none":
		delete(sub, "origin")
	case "origin-number":
		sub["origin"] = 7
	case "issuer-other":
		vc["issuer"] = other.DID
		if other == a {
			vc["issuer"] = w.evil.DID
		}
	case "issuer-none":
		delete(vc, "issuer")
	case "issuer-no-id":
		vc["issuer"] = world.J{"name": "x"}
	}

	signer := a
	if e.flaw == "signed-by-other" || e.flaw == "forged-kid" {
		signer = w.evil
	}

	i := r.Choose(len(signer.Cur), "key")

	if r.Chance(1, 2, "jwt") || signer.Cur[i].Key.Kind == world.K256 {
		k := signer.Cur[i].Key
		h := world.J{"alg": k.Alg, "kid": signer.KID(i)}

		if r.Chance(1, 3, "h-typ") {
			h["typ"] = "JWT"
		}

		p := world.J{"iss": vc["issuer"], "sub": sub["id"], "vc": vc, "nbf": 1704067200, "exp": 1893456000}

		for c, f := range map[string]string{"iss": "issuer-none", "nbf": "no-issued", "exp": "no-expiry"} {
			if e.flaw == f {
				delete(p, c)
			}
		}

		switch e.flaw {
		case "issuer-no-id":
			delete(p, "iss")
		case "subject-no-id", "no-subject", "empty-subjects":
			delete(p, "sub")
		case "forged-kid":
			h["kid"] = a.KID(0)
		case "extra-header":
			h["cty"] = "x"
		case "extra-claim":
			p["aud"] = "x"
		case "typ":
			h["typ"] = "at+jwt"
		case "id":
			p["jti"] = "urn:uuid:1"
		}

		if r.Chance(1, 8, "iat") {
			p["iat"] = 1704067200
		}

		tok := signJWT(k, h, world.Enc(p))
		e.jwt = &lkJWT{by: signer.DID, kid: fmt.Sprint(h["kid"]), key: k, h: asJSON(h), p: asJSON(p)}
		w.jwts = append(w.jwts, e.jwt)

		switch e.flaw {
		case "unsigned":
			h["alg"] = "none"
			tok = joinJWT(h, world.Enc(p), nil)
		case "altered":
			hh, pp, sig, _ := splitJWT(tok)
			q := world.Dec(pp)
			world.Mutate(r, q, nil)
			tok = joinJWT(hh, world.Enc(q), sig)
		}

		e.val = tok
	} else {
		switch e.flaw {
		case "extra-header", "extra-claim", "typ":
			e.flaw = ""
		}

		d, rec, err := w.signDoc(signer, i, vc)
		if err != nil {
			if e.flaw == "" {
				r.Violate("cannot-issue", "sign", "a linkage credential could not be signed: %v\n%s", err, world.Enc(vc))
			}

			d = vc
		}

		e.rec = rec

		// strict validation also refuses proof members the contexts do not define
		if ps, ok := proofsOf(d); ok && e.flaw == "" && err == nil {
			pv, jws, chain := ps[0]["proofValue"] != nil, ps[0]["jws"] != nil, ps[0]["capabilityChain"] != nil
			if typ := str(ps[0]["type"]); chain || typ == "JsonWebSignature2020" && pv || typ == "Ed25519Signature2020" && jws {
				e.flaw = "undefined-term"
			}
		}

		switch e.flaw {
		case "unsigned":
			delete(d, "proof")
		case "altered":
			world.Mutate(r, d, nil)
		case "forged-kid":
			if ps, ok := proofsOf(d); ok {
				ps[0]["verificationMethod"] = a.KID(0)
			}
		}

		e.val = d
	}

	if e.flaw != "" {
		r.FaultFired("bad-linkage-credential")
	}

	w.pool = append(w.pool, e)

	return e
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}

	return 0
}

// config publishes a new configuration at a domain.
func (w *lkWorld) config(dom string) *lkConfig {
	r := w.r
	c := &lkConfig{dom: dom}

	var list []any

	for i, n := 0, r.N(0, 4, "entries"); i < n; i++ {
		var e *lkEntry

		if len(w.pool) > 0 && r.Chance(1, 2, "copied") {
			e = w.pool[r.Choose(len(w.pool), "which")] // anybody can publish anybody's credential
		} else {
			e = w.entry()
			if r.Failed() {
				return nil
			}
		}

		c.entries = append(c.entries, e)
		list = append(list, e.val)
	}

	doc := world.J{"@context": world.DIDConfig, "linked_dids": list}

	if r.Chance(1, 6, "flaw") {
		c.flaw = []string{"no-context", "no-list", "extra", "null-entry", "number-entry", "list-object", "not-json", "null"}[r.Choose(8, "cfg")]

		switch c.flaw {
		case "no-context":
			delete(doc, "@context")
		case "no-list":
			delete(doc, "linked_dids")
		case "extra":
			doc["extra"] = 1
		case "null-entry":
			doc["linked_dids"] = append(list, nil)
		case "number-entry":
			doc["linked_dids"] = append([]any{1}, list...)
		case "list-object":
			doc["linked_dids"] = world.J{"0": list}
		}
	}

	c.raw = world.Enc(doc)

	switch c.flaw {
	case "not-json":
		c.raw = c.raw[:len(c.raw)-1]
	case "null":
		c.raw = []byte("null")
	}

	w.net.Serve(dom+"/.well-known/did-configuration.json", &world.Resource{Type: "application/json", Body: c.raw})

	for i := range w.cur {
		if w.cur[i].dom == dom {
			w.cur[i] = c

			return c
		}
	}

	w.cur = append(w.cur, c)

	return c
}

func sameOrigin(a, b string) bool {
	x, e1 := url.Parse(a)
	y, e2 := url.Parse(b)

	if e1 != nil || e2 != nil {
		return false
	}

	if x.Host == "" || y.Host == "" {
		return a == b // not URLs: compared as they are
	}

	return x.Scheme == y.Scheme && x.Host == y.Host
}

// linkageContent says what is wrong with a linkage credential's statements, "" if nothing.
func linkageContent(vc world.J, did, dom string) string {
	has := false

	switch t := vc["type"].(type) {
	case string:
		has = t == "DomainLinkageCredential"
	case []any:
		for _, x := range t {
			has = has || x == "DomainLinkageCredential"
		}
	}

	if !has {
		return "it is no DomainLinkageCredential"
	}

	if s := str(vc["id"]); s != "" {
		return "it has an id"
	}

	if str(vc["issuanceDate"]) == "" {
		return "it has no issuance date"
	}

	if str(vc["expirationDate"]) == "" {
		return "it has no expiration date"
	}

	iss := str(vc["issuer"])
	if m, ok := vc["issuer"].(map[string]any); ok {
		iss = str(m["id"])
	}

	if iss != did {
		return fmt.Sprintf("its issuer is %q", iss)
	}

	sub, ok := vc["credentialSubject"].(map[string]any)
	if a, isArr := vc["credentialSubject"].([]any); isArr && len(a) == 1 {
		sub, ok = a[0].(map[string]any)
	}

	if !ok {
		return "it has not exactly one subject"
	}

	if str(sub["id"]) != did {
		return fmt.Sprintf("its subject is %v", sub["id"])
	}

	o, ok := sub["origin"].(string)
	if !ok || !sameOrigin(o, dom) {
		return fmt.Sprintf("its origin is %v", sub["origin"])
	}

	return ""
}

// vouches says why one entry does not link did and dom, "" if it does.
func (w *lkWorld) vouches(v any, did, dom string, res []world.Resolution) string {
	switch x := v.(type) {
	case string:
		h, p, _, ok := splitJWT(x)
		if !ok {
			return "it is no JWT"
		}

		pay := world.Dec(p)

		var by *lkJWT

		for _, j := range w.jwts {
			if j.by == did && world.Same(j.h, h) && world.Same(j.p, pay) {
				by = j

				if listedKey(res, did, j.kid, j.key) {
					break
				}
			}
		}

		if by == nil {
			return "the DID's keys never signed it"
		}

		if !listedKey(res, did, by.kid, by.key) {
			return "the DID's document does not list its key"
		}

		for k := range h {
			if k != "alg" && k != "kid" && k != "typ" {
				return "its header has " + k
			}
		}

		for k := range pay {
			if indexOf([]string{"?", "exp", "iss", "nbf", "sub", "vc", "iat"}, k) == 0 {
				return "its payload has " + k
			}
		}

		vc, ok := pay["vc"].(map[string]any)
		if !ok {
			return "it has no vc"
		}

		vc = world.CloneJ(vc)

		if pay["iss"] != nil {
			vc["issuer"] = pay["iss"]
		}

		if pay["exp"] != nil {
			vc["expirationDate"] = "set"
		}

		if pay["nbf"] != nil || pay["iat"] != nil {
			vc["issuanceDate"] = "set"
		}

		if s, ok := pay["sub"].(string); ok && s != did {
			return "its sub is " + s
		}

		return linkageContent(vc, did, dom)
	case map[string]any:
		if _, why := w.authentic(x, did, res); why != "" {
			return why
		}

		return linkageContent(x, did, dom)
	}

	return "it is neither a JWT nor an object"
}

func listedKey(res []world.Resolution, did, kid string, k *world.Key) bool {
	for _, x := range res {
		if x.DID == did && x.Version.Lists(kid, k) {
			return true
		}
	}

	return false
}

func runLinkage(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := &lkWorld{ldWorld: newLDWorldOf(r, false), net: world.NewNet(r)}

	if r.Chance(1, 2, "faults") {
		w.net.Rate = []int{100, 400}[r.Choose(2, "rate")]
		w.reg.Fail, w.reg.Stale, w.reg.Slow = 60, 200, 60
	}

	if r.Chance(1, 4, "loader-faults") {
		w.loader.Fail, w.loader.Slow = 10, 10
	}

	cl := client.New(client.WithHTTPClient(w.net.Client()), client.WithVDRegistry(w.reg), client.WithJSONLDDocumentLoader(w.loader))

	for _, d := range lkDomains {
		if r.Chance(1, 2, "publish") {
			w.config(d)
		}
	}

	if r.Failed() {
		return
	}

	tasks := []func(){func() {
		for op := 0; op < 3 && !r.Failed(); op++ {
			if r.Chance(1, 3, "rotate") {
				w.issuers[r.Choose(2, "who")].Rotate()
			} else {
				w.config(lkDomains[r.Choose(len(lkDomains), "dom")])
			}

			r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
		}
	}}

	for i, n := 0, r.N(1, 2, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			for op := 0; op < 4 && !r.Failed(); op++ {
				w.checkOne(cl)
				r.Sleep(time.Duration(r.Choose(30, "pause")) * time.Second)
			}
		})
	}

	r.Parallel("actor", tasks...)

	if o := w.net.Open(); len(o) > 0 && !r.Failed() {
		r.Violate("leak", "body", "response bodies never closed: %v", o)
	}
}

func (w *lkWorld) checkOne(cl *client.Client) {
	r := w.r
	dom := lkDomains[r.Choose(len(lkDomains), "dom")]
	did := w.issuers[r.Choose(2, "who")].DID

	if len(w.cur) > 0 && r.Chance(3, 4, "published") {
		c := w.cur[r.Choose(len(w.cur), "cfg")]
		dom = c.dom

		if len(c.entries) > 0 && r.Chance(3, 4, "listed") {
			did = c.entries[r.Choose(len(c.entries), "e")].did
		}
	}

	if r.Chance(1, 10, "odd-did") {
		did = []string{"", w.evil.DID, "did:sim:nobody", "urn:x"}[r.Choose(4, "odd")]
	}

	var cfg *lkConfig

	for _, c := range w.cur {
		if c.dom == dom {
			cfg = c
		}
	}

	from, nfrom, ctxFail := len(w.reg.Log), len(w.net.Log), w.loader.Failed
	direct := cfg != nil && (r.Chance(1, 3, "direct") || !strings.Contains(dom, "://"))

	var (
		err  error
		body []byte
	)

	if direct {
		body = cfg.raw
		if r.Chance(1, 8, "garble") {
			r.FaultFired("message-tampered")

			body = world.Garble(r, body)
			cfg = nil
		}
	}

	p := core.Do(func() {
		if direct {
			err = verifier.VerifyDIDAndDomain(body, did, dom, verifier.WithVDRegistry(w.reg), verifier.WithJSONLDDocumentLoader(w.loader))
		} else {
			err = cl.VerifyDIDAndDomain(did, dom)
		}
	})

	served := true
	fault := "none"

	if !direct {
		ex := w.net.Window(nfrom)
		served = len(ex) == 1 && !ex[0].Err && ex[0].Status == 200

		if len(ex) == 1 {
			body, fault = ex[0].Served, ex[0].FaultName()
		}

		if cfg != nil && string(body) != string(cfg.raw) {
			cfg = nil // something else was delivered
		}
	}

	if p != "" {
		r.Violate("panic", core.PanicSite(p), "linkage verification panicked: %s\nconfiguration: %s", p, body)

		return
	}

	res := w.reg.Window(from)

	var flaws []string
	if cfg != nil {
		for _, e := range cfg.entries {
			k := "ld"
			if e.jwt != nil {
				k = "jwt"
			}

			flaws = append(flaws, k+":"+e.flaw)
		}

		sortStrings(flaws)
	}

	r.Eval("%v direct=%v net=%s reg=%d accepted=%v", flaws, direct, fault, len(res), err == nil)

	if err != nil {
		r.Logf("verify %s %s: refused: %v", did, dom, err)

		if cfg == nil || !served || cfg.flaw != "" || w.loader.Failed > ctxFail {
			return
		}

		for _, x := range res {
			if x.Version == nil {
				return // the registry failed for one of the candidates
			}
		}

		for i, e := range cfg.entries {
			if e.flaw != "" || e.did != did || !sameOrigin(e.dom, dom) {
				continue
			}

			kid, key := "", (*world.Key)(nil)
			if e.jwt != nil {
				kid, key = e.jwt.kid, e.jwt.key
			} else {
				kid, key = e.rec.vm, e.rec.key
			}

			// whatever version the registry answers with, it lists the key
			always := true

			for _, x := range res {
				always = always && x.DID == did && x.Version.Lists(kid, key)
			}

			if always {
				r.Violate("false-reject", "genuine", "%s and %s were found not linked although entry %d of the configuration links them: %v\n%s", did, dom, i, err, body)
			}
		}

		return
	}

	r.Logf("verify %s %s: linked", did, dom)

	if !served {
		r.Violate("linked-wrongly", "not-served", "%s and %s count as linked although no configuration was obtained (fault %s)", did, dom, fault)

		return
	}

	doc := world.Dec(body)
	list, _ := doc["linked_dids"].([]any)

	why := []string{}

	for i, v := range list {
		x := w.vouches(v, did, dom, res)
		if x == "" {
			for k := range doc {
				if k != "@context" && k != "linked_dids" {
					r.Violate("linked-wrongly", "malformed", "a configuration with a member %q was accepted: %s", k, body)
				}
			}

			return
		}

		why = append(why, fmt.Sprintf("entry %d: %s", i, x))
	}

	r.Violate("linked-wrongly", "no-entry", "%q and %q count as linked, but no entry of the configuration links them:\n%s\n%s", did, dom, strings.Join(why, "\n"), body)
}
