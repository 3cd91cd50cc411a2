package props

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/world"
)

// peCred is a credential in a wallet, with everything the oracle needs to know about it.
type peCred struct {
	n      int
	doc    world.J // every claim it makes
	form   string  // jwt, ldp, sd
	alg    string
	proofs []string
	wire   []byte // as issued
	tok    string // the issuer-signed token
	discs  []string
	locs   map[string][]string // where each disclosure's claim is
	hash   crypto.Hash
	vc     *verifiable.Credential
	snap   string
	v5     bool
}

// vcString is everything a holder of the parsed credential can get at.
func vcString(c *verifiable.Credential) string {
	s := string(world.Enc(c.ToRawJSON()))
	if c.JWTEnvelope != nil {
		s += "\n" + c.JWTEnvelope.JWT + c.JWTEnvelope.SDHolderBinding
		for _, d := range c.JWTEnvelope.SDJWTDisclosures {
			s += "~" + d.Disclosure
		}
	}

	return s
}

type peWorld struct {
	*vpWorld
	v2    bool
	creds []*peCred
}

func newPEWorld(r *core.Run) *peWorld {
	w := &peWorld{vpWorld: &vpWorld{r: r, reg: world.NewRegistry(r), loader: world.NewLoader(r)}}
	ks := []world.Kind{world.Ed, world.P256, world.P384}

	actor := func(id string) *world.Actor { return world.NewActor(r, w.reg, id, ks[r.Choose(3, "kind")]) }

	w.holders = []*world.Actor{actor("did:sim:holder0")}
	w.issuers = []*world.Actor{actor("did:sim:issuer0"), actor("did:sim:issuer1")}
	w.evil = actor(evilDID(r, w.issuers[0].DID))
	w.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(w.reg))
	w.ld = &ldWorld{r: r, reg: w.reg, loader: w.loader, issuers: w.issuers, evil: w.evil, checker: w.checker}
	w.v2 = r.Chance(1, 2, "v2")

	return w
}

var (
	peTypes   = []string{"AlphaCredential", "BetaCredential", "GammaCredential"}
	peNames   = []string{"Ann", "Bob", "Cy"}
	peLands   = []string{"DE", "FR", "US"}
	peDegrees = []string{"bsc", "msc", "phd", "mba"}
)

// peDoc makes the claims of a credential.
func (w *peWorld) peDoc(iss string) world.J {
	r := w.r
	n := len(w.creds)
	base := world.V1

	if w.v2 {
		base = world.V2
	}

	types := []any{"VerifiableCredential"}
	if r.Chance(5, 6, "typed") {
		types = append(types, peTypes[r.Choose(len(peTypes), "type")])
	}

	d := world.J{"@context": []any{base, world.PE}, "type": types, "issuer": iss}

	// two credentials with the same id count as one: that is pinned by the repository's tests
	if r.Chance(2, 3, "id") {
		d["id"] = fmt.Sprintf("urn:pe:%d", n)
	}

	if w.v2 {
		d["validFrom"] = "2024-01-01T00:00:00Z"
	} else {
		d["issuanceDate"] = "2024-01-01T00:00:00Z"
	}

	s := world.J{"id": w.holders[0].DID, "serial": fmt.Sprintf("s-%d", n)}
	has := func(k string) bool { return r.Chance(3, 4, k) }

	if has("name") {
		s["name"] = peNames[r.Choose(len(peNames), "name")]
	}

	if has("nick") {
		s["nick"] = peNames[r.Choose(len(peNames), "nick")]
	}

	if has("age") {
		s["age"] = float64(r.N(15, 25, "age"))
	}

	if has("member") {
		s["member"] = r.Chance(1, 2, "m")
	}

	if has("home-town") {
		s["home-town"] = fmt.Sprintf("town-%d", r.Choose(3, "town"))
	}

	if has("address") {
		a := world.J{"country": peLands[r.Choose(3, "land")], "city": fmt.Sprintf("city-%d", n)}
		if has("geo") {
			a["geo"] = world.J{"zone": "z" + peLands[r.Choose(3, "land")], "name": "geo-name"}
		}

		s["address"] = a
	}

	if has("degrees") {
		var a []any
		for i, m := 0, r.N(1, 3, "degrees"); i < m; i++ {
			a = append(a, peDegrees[r.Choose(len(peDegrees), "degree")])
		}

		s["degrees"] = a
	}

	if has("jobs") {
		var a []any
		for i, m := 0, r.N(1, 3, "jobs"); i < m; i++ {
			a = append(a, world.J{"title": fmt.Sprintf("job-%d", r.Choose(3, "job")), "level": float64(r.Choose(4, "level"))})
		}

		s["jobs"] = a
	}

	if has("tags") {
		s["tags"] = []any{fmt.Sprintf("tag-%d", n), "tag"}
	}

	d["credentialSubject"] = s

	return d
}

// issue makes one more credential for the wallet.
func (w *peWorld) issue() *peCred {
	r := w.r
	by := w.issuers[r.Choose(len(w.issuers), "issuer")]

	if r.Chance(1, 5, "self-issued") {
		by = w.holders[0]
	}

	c := &peCred{n: len(w.creds), doc: w.peDoc(by.DID)}
	k, kid := by.Cur[0].Key, by.KID(0)
	form := []string{"jwt", "ldp", "sd", "sd"}[r.Choose(4, "form")]

	cred, err := verifiable.ParseCredential(world.Enc(c.doc), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(),
		verifiable.WithDisabledRelatedResourceCheck())
	if err != nil {
		r.Violate("cannot-issue", "parse", "a valid credential was refused: %v", err)

		return nil
	}

	c.form = form
	s := &world.Signer{K: k, R: r}

	switch form {
	case "jwt":
		cred, err = cred.CreateSignedJWTVC(false, world.JWSAlg(k.Kind), world.Creator(s), kid)
		if err == nil {
			c.alg, c.tok = k.Alg, cred.JWTEnvelope.JWT
			c.wire = []byte(c.tok)
		}
	case "ldp":
		if s := c.doc["credentialSubject"].(world.J); r.Chance(1, 8, "two subjects") {
			ss := []any{s, world.J{"id": []string{by.DID, w.holders[0].DID, "did:sim:other"}[r.Choose(3, "second")], "name": peNames[r.Choose(3, "name")]}}
			if r.Chance(1, 2, "swap") {
				ss[0], ss[1] = ss[1], ss[0]
			}

			c.doc["credentialSubject"] = ss
		}

		ls := w.ld.sign(by, c.doc, r.N(1, 2, "proofs"))
		if ls == nil {
			return nil
		}

		c.doc = world.Dec(world.Enc(ls.doc))
		ps, _ := proofsOf(c.doc)

		for _, p := range ps {
			c.proofs = append(c.proofs, str(p["type"]))
		}

		c.wire = world.Enc(c.doc)
	case "sd":
		c.alg, c.hash = k.Alg, crypto.SHA256

		var opts []verifiable.MakeSDJWTOption

		if r.Chance(1, 2, "v5") {
			c.v5 = true
			opts = append(opts, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5))

			objs := []string{"address", "address.geo", "jobs[0]", "jobs"}
			if r.Chance(1, 2, "recursive") {
				opts = append(opts, verifiable.MakeSDJWTWithRecursiveClaimsObjects(pickPaths(r, objs[:2], 1, 2)))
			}

			if r.Chance(1, 2, "always-include") {
				opts = append(opts, verifiable.MakeSDJWTWithAlwaysIncludeObjects(pickPaths(r, []string{"address", "address.geo", "degrees", "jobs"}, 1, 3)))
			}
		}

		if r.Chance(1, 3, "other-hash") {
			c.hash = hashOf(r)
			opts = append(opts, verifiable.MakeSDJWTWithHash(c.hash))
		}

		if r.Chance(1, 3, "non-sd") {
			opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(pickPaths(r, []string{"name", "nick", "age", "member", "serial", "id", "address.city"}, 1, 3)))
		}

		var combined string

		combined, err = cred.MakeSDJWT(joseSigner{s}, kid, opts...)
		if err == nil {
			c.wire = []byte(combined)

			if strings.Contains(combined, "~") {
				c.tok, c.discs, _ = splitSD(strings.TrimSuffix(combined, "~") + "~")
			} else {
				c.tok = combined
			}
		}
	}

	if err != nil {
		r.Violate("cannot-issue", form, "issuing a credential failed: %v", err)

		return nil
	}

	c.vc, err = verifiable.ParseCredential(c.wire, verifiable.WithProofChecker(w.checker), verifiable.WithJSONLDDocumentLoader(w.loader),
		verifiable.WithDisabledRelatedResourceCheck())
	if err != nil {
		r.Violate("cannot-issue", "reparse "+form, "the wallet cannot parse an issued credential: %v\n%s", err, c.wire)

		return nil
	}

	if c.form == "sd" {
		c.locate()

		if r.Failed() {
			return nil
		}
	}

	c.snap = vcString(c.vc)
	w.creds = append(w.creds, c)
	r.Logf("credential %d: %s by %s, %s", c.n, form, by.DID, world.Enc(c.doc))

	return c
}

// root is the credential in a token's payload.
func rootOf(payload world.J) world.J {
	if v, ok := payload["vc"].(map[string]any); ok {
		return v
	}

	return payload
}

// locate finds what each disclosure discloses, without the code under test.
func (c *peCred) locate() {
	c.locs = map[string][]string{}
	byDg := map[string]*sdDisc{}

	for _, raw := range c.discs {
		if d, err := decodeDisc(raw, c.hash); err == nil {
			byDg[d.digest] = d
		}
	}

	var walk func(v any, at []string)

	put := func(dg any, name string, isElem bool, at []string, k int) bool {
		d := byDg[fmt.Sprint(dg)]
		if d == nil {
			return false
		}

		p := append(append([]string{}, at...), d.name)
		if isElem {
			p[len(at)] = strconv.Itoa(k)
		}

		c.locs[d.raw] = p
		walk(d.value, p)

		return true
	}

	walk = func(v any, at []string) {
		switch x := v.(type) {
		case map[string]any:
			for k, e := range x {
				if k == "_sd" {
					l, _ := e.([]any)

					for _, dg := range l {
						put(dg, "", false, at, 0)
					}

					continue
				}

				walk(e, append(append([]string{}, at...), k))
			}
		case []any:
			i := 0

			for _, e := range x {
				if m, ok := e.(map[string]any); ok && len(m) == 1 && m["..."] != nil {
					if put(m["..."], "", true, at, i) {
						i++
					}

					continue
				}

				walk(e, append(append([]string{}, at...), strconv.Itoa(i)))
				i++
			}
		}
	}

	_, p, _, _ := splitJWT(c.tok)
	walk(rootOf(world.Dec(p)), nil)
}

// ---- the oracle's paths and filters ----

type peSeg struct {
	name string
	idx  int
	kind byte // n, i, *, d (descendants named)
}

var segRe = regexp.MustCompile(`^(?:\.\.([A-Za-z-]+)|\.\*|\.([A-Za-z@-]+)|\['([^']+)'\]|\[(\d+)\]|\[\*\])`)

// pePath parses the paths this package generates.
func pePath(p string) []peSeg {
	p = strings.TrimPrefix(p, "$")

	var o []peSeg

	for p != "" {
		m := segRe.FindStringSubmatch(p)
		if m == nil {
			panic("generated path: " + p)
		}

		switch {
		case m[1] != "":
			o = append(o, peSeg{name: m[1], kind: 'd'})
		case m[2] != "":
			o = append(o, peSeg{name: m[2], kind: 'n'})
		case m[3] != "":
			o = append(o, peSeg{name: m[3], kind: 'n'})
		case m[4] != "":
			i, _ := strconv.Atoi(m[4])
			o = append(o, peSeg{idx: i, kind: 'i'})
		default:
			o = append(o, peSeg{kind: '*'})
		}

		p = p[len(m[0]):]
	}

	return o
}

type peHit struct {
	at []string
	v  any
}

// ID names the place.
func (h peHit) id() string { return strings.Join(h.at, "\x00") }

func sortedKeys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}

func selectPath(v any, at []string, segs []peSeg) []peHit {
	if len(segs) == 0 {
		return []peHit{{append([]string{}, at...), v}}
	}

	var o []peHit

	s := segs[0]
	down := func(k string, e any, rest []peSeg) {
		o = append(o, selectPath(e, append(append([]string{}, at...), k), rest)...)
	}

	switch x := v.(type) {
	case map[string]any:
		switch s.kind {
		case 'n', 'd':
			if e, ok := x[s.name]; ok {
				down(s.name, e, segs[1:])
			}

			if s.kind == 'd' {
				for _, k := range sortedKeys(x) {
					down(k, x[k], segs)
				}
			}
		case '*':
			for _, k := range sortedKeys(x) {
				down(k, x[k], segs[1:])
			}
		}
	case []any:
		switch s.kind {
		case 'i':
			if s.idx < len(x) {
				down(strconv.Itoa(s.idx), x[s.idx], segs[1:])
			}
		case '*', 'd':
			rest := segs[1:]
			if s.kind == 'd' {
				rest = segs
			}

			for i, e := range x {
				down(strconv.Itoa(i), e, rest)
			}
		}
	}

	return o
}

// locatePath finds what a path selects in a credential. Paths of JWT credentials may start at the token's vc claim.
func locatePath(doc world.J, token bool, p string) []peHit {
	if token {
		switch {
		case strings.HasPrefix(p, "$.vc."):
			p = "$." + p[5:]
		case strings.HasPrefix(p, "$['vc']"):
			p = "$" + p[7:]
		}
	}

	return selectPath(doc, nil, pePath(p))
}

func num(v any) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int:
		return float64(x), true
	}

	return 0, false
}

func typeIs(v any, t string) bool {
	switch x := v.(type) {
	case string:
		return t == "string"
	case bool:
		return t == "boolean"
	case float64:
		return t == "number" || t == "integer" && x == float64(int64(x))
	case []any:
		return t == "array"
	case map[string]any:
		return t == "object"
	case nil:
		return t == "null"
	}

	return false
}

// filterOK evaluates a filter, itself JSON.
func filterOK(f world.J, v any) bool {
	if t, ok := f["type"].(string); ok && !typeIs(v, t) {
		return false
	}

	if c, ok := f["const"]; ok && !world.Same(c, v) {
		return false
	}

	if e, ok := f["enum"].([]any); ok {
		hit := false
		for _, x := range e {
			hit = hit || world.Same(x, v)
		}

		if !hit {
			return false
		}
	}

	if x, ok := num(v); ok {
		for k, bad := range map[string]func(l float64) bool{
			"minimum": func(l float64) bool { return x < l }, "maximum": func(l float64) bool { return x > l },
			"exclusiveMinimum": func(l float64) bool { return x <= l }, "exclusiveMaximum": func(l float64) bool { return x >= l },
		} {
			if l, ok := num(f[k]); ok && bad(l) {
				return false
			}
		}
	}

	if s, ok := v.(string); ok {
		if p, ok := f["pattern"].(string); ok && !regexp.MustCompile(p).MatchString(s) {
			return false
		}

		if l, ok := num(f["minLength"]); ok && float64(len(s)) < l {
			return false
		}

		if l, ok := num(f["maxLength"]); ok && float64(len(s)) > l {
			return false
		}
	}

	if n, ok := f["not"].(map[string]any); ok && filterOK(n, v) {
		return false
	}

	if c, ok := f["contains"].(map[string]any); ok {
		if a, ok := v.([]any); ok {
			hit := false
			for _, e := range a {
				hit = hit || filterOK(c, e)
			}

			if !hit {
				return false
			}
		}
	}

	if a, ok := f["allOf"].([]any); ok {
		for _, e := range a {
			if !filterOK(e.(map[string]any), v) {
				return false
			}
		}
	}

	return true
}

// ---- definitions ----

// peField is a field as JSON; the code under test gets the same JSON.
type peDef struct {
	json world.J
	pd   *presexch.PresentationDefinition
	v1   bool
}

func (d *peDef) descs() []world.J {
	var o []world.J
	for _, x := range d.json["input_descriptors"].([]any) {
		o = append(o, x.(world.J))
	}

	return o
}

func (d *peDef) desc(id string) world.J {
	for _, x := range d.descs() {
		if x["id"] == id {
			return x
		}
	}

	return nil
}

var pePaths = []string{
	"$.credentialSubject.name", "$['credentialSubject']['name']", "$.credentialSubject['nick']", "$.credentialSubject.age", "$.credentialSubject.member",
	"$.credentialSubject.home-town", "$.credentialSubject['home-town']", "$.credentialSubject.address", "$.credentialSubject.address.country",
	"$.credentialSubject.address.city", "$.credentialSubject.address.geo", "$.credentialSubject.address.geo.zone", "$.credentialSubject.degrees", "$.credentialSubject.degrees[0]",
	"$.credentialSubject.degrees[1]", "$.credentialSubject.degrees[*]", "$.credentialSubject.jobs", "$.credentialSubject.jobs[0]", "$.credentialSubject.jobs[1].title",
	"$.credentialSubject.jobs[*].title", "$.credentialSubject.jobs[*].level", "$.credentialSubject.tags", "$.credentialSubject.tags[0]", "$.credentialSubject.serial",
	"$.credentialSubject.missing", "$.type", "$.issuer", "$.id", "$.vc.credentialSubject.name", "$.vc.credentialSubject.address.country", "$.credentialSubject", "$..country", "$..zone",
	"$.issuanceDate", "$.vc.issuanceDate", "$.expirationDate", "$.validFrom", "$.vc.validUntil",
}

func sampleValue(r *core.Run) any {
	switch r.Choose(4, "sample") {
	case 0:
		return peNames[r.Choose(3, "name")]
	case 1:
		return float64(r.N(0, 25, "num"))
	case 2:
		return peLands[r.Choose(3, "land")]
	}

	return peDegrees[r.Choose(4, "degree")]
}

// genFilter makes a filter, mostly one the value passes.
func genFilter(r *core.Run, v any, v1 bool) world.J {
	f := world.J{}

	if v == nil || r.Chance(1, 6, "odd-filter") {
		v = sampleValue(r)
	}

	switch x := v.(type) {
	case string:
		f["type"] = "string"

		switch r.Choose(7, "filter") {
		case 0:
			f["const"] = x
		case 1:
			f["enum"] = []any{x, "zz"}
		case 2:
			f["pattern"] = "^" + regexp.QuoteMeta(x[:1])
		case 3:
			f["minLength"] = float64(r.N(1, 6, "len"))
		case 4:
			f["maxLength"] = float64(r.N(2, 12, "len"))
		case 5:
			f["not"] = world.J{"const": peNames[r.Choose(3, "name")]}
		}
	case float64:
		f["type"] = []string{"number", "integer"}[r.Choose(2, "t")]

		switch r.Choose(7, "filter") {
		case 0:
			f["const"] = x
		case 1:
			f["enum"] = []any{x, 99.0}
		case 2:
			f["minimum"] = x
		case 3:
			f["maximum"] = x + float64(r.N(0, 2, "d"))
		case 4:
			f["exclusiveMinimum"] = x - float64(r.N(0, 1, "d"))
		case 5:
			f["exclusiveMaximum"] = x + float64(r.N(0, 1, "d"))
		}
	case bool:
		f["type"] = "boolean"
		if !v1 && r.Chance(1, 2, "const") {
			f["const"] = x
		}
	case []any:
		f["type"] = "array"
		if len(x) > 0 && r.Chance(2, 3, "contains") {
			f["contains"] = genFilter(r, x[r.Choose(len(x), "el")], v1)
		}
	case map[string]any:
		f["type"] = "object"
	}

	if !v1 && len(f) > 1 && r.Chance(1, 4, "typeless") {
		delete(f, "type")
	}

	if !v1 && r.Chance(1, 8, "allof") {
		all := []any{f}
		for r.Chance(1, 2, "all of more") && len(all) < 3 {
			g := genFilter(r, v, v1)
			if g["allOf"] != nil {
				break
			}

			all = append(all, g)
		}

		return world.J{"allOf": all}
	}

	return f
}

func (w *peWorld) genDesc(id string, v1 bool) world.J {
	r := w.r
	target := w.creds[r.Choose(len(w.creds), "target")]
	d := world.J{"id": id}

	if v1 {
		var ss []any

		add := func(t string) {
			u := t
			if r.Chance(2, 3, "iri") {
				u = "https://sim.example/pe#" + t
				if t == "VerifiableCredential" {
					u = "https://www.w3.org/2018/credentials#VerifiableCredential"
				}
			}

			s := world.J{"uri": u}
			if r.Chance(1, 3, "required") {
				s["required"] = true
			}

			ss = append(ss, s)
		}

		ts := target.doc["type"].([]any)
		add(str(ts[r.Choose(len(ts), "t")]))

		if r.Chance(1, 3, "more") {
			add(peTypes[r.Choose(3, "t")])
		}

		d["schema"] = ss
	}

	if r.Chance(1, 8, "no-constraints") {
		return d
	}

	c := world.J{}
	d["constraints"] = c

	if r.Chance(1, 2, "limit") {
		c["limit_disclosure"] = []string{"required", "required", "required", "preferred"}[r.Choose(4, "limit")]
	}

	if r.Chance(1, 8, "subject-is-issuer") {
		c["subject_is_issuer"] = []string{"required", "preferred"}[r.Choose(2, "sii")]
	}

	if r.Chance(1, 10, "no-fields") {
		return d
	}

	var fs []any

	for i, n := 0, r.N(1, 3, "fields"); i < n; i++ {
		var (
			ps []any
			v  any
		)

		most := 2
		if r.Chance(1, 6, "many paths") {
			most = 4
		}

		for j, m := 0, r.N(1, most, "paths"); j < m; j++ {
			p := pePaths[r.Choose(len(pePaths), "path")]

			// mostly one the target has
			for t := 0; t < 4 && len(locatePath(target.doc, target.form != "ldp", p)) == 0; t++ {
				p = pePaths[r.Choose(len(pePaths), "path")]
			}

			if h := locatePath(target.doc, target.form != "ldp", p); len(h) == 1 {
				v = h[0].v
			} else if len(h) > 1 {
				var a []any
				for _, x := range h {
					a = append(a, x.v)
				}

				v = a
			}

			ps = append(ps, p)
		}

		f := world.J{"path": ps}

		if u, isNum := inSeconds(ps, v).(float64); isNum && str(v) != "" && r.Chance(1, 2, "in-seconds") {
			v = u
		}

		if r.Chance(1, 2, "filter") {
			f["filter"] = genFilter(r, v, v1)

			if r.Chance(1, 5, "predicate") && predicable(ps) {
				f["predicate"] = []string{"required", "preferred"}[r.Choose(2, "p")]
			}
		}

		if _, ok := f["predicate"]; !ok && !v1 && r.Chance(1, 5, "optional") {
			f["optional"] = true
		}

		fs = append(fs, f)
	}

	w.settle(fs)

	c["fields"] = fs

	return d
}

// settle takes back a predicate on what another path asks for in part: what such a pair means is nowhere said.
func (w *peWorld) settle(fs []any) {
	for _, f := range fs {
		f := f.(world.J)
		if _, ok := f["predicate"]; !ok {
			continue
		}

		for _, c := range w.creds {
			_, _, mine := fieldHits(f, c.doc, c.form != "ldp")

			for _, g := range fs {
				_, _, others := fieldHits(g.(world.J), c.doc, c.form != "ldp")

				for _, a := range mine {
					for _, b := range others {
						if !slices.Equal(a.at, b.at) && (within(a.at, b.at) || within(b.at, a.at)) {
							delete(f, "predicate")
						}
					}
				}
			}
		}
	}
}

// predicable says that the values at all paths may be replaced by true.
func predicable(ps []any) bool {
	for _, p := range ps {
		if s := str(p); !strings.HasPrefix(s, "$.credentialSubject.") {
			return false
		}
	}

	return true
}

func (w *peWorld) genReq(groups []string, size map[string]int, depth int) world.J {
	r := w.r
	q := world.J{"name": "q"}
	n := 0

	if depth > 0 && r.Chance(1, 4, "nested") {
		var ns []any
		for i, m := 0, r.N(1, 3, "nested"); i < m; i++ {
			ns = append(ns, w.genReq(groups, size, depth-1))
		}

		q["from_nested"] = ns
		n = len(ns)
	} else {
		g := groups[r.Choose(len(groups), "from")]
		q["from"] = g
		n = size[g]
	}

	q["rule"] = "all"

	if r.Chance(2, 3, "pick") {
		q["rule"] = "pick"

		switch r.Choose(5, "bounds") {
		case 0, 1:
			q["count"] = float64(r.N(1, n, "count"))
		case 2:
			q["min"] = float64(r.N(1, n, "min"))
		case 3:
			m := r.N(1, n, "min")
			q["min"], q["max"] = float64(m), float64(r.N(m, n, "max"))
		case 4:
			q["max"] = float64(r.N(1, n, "max"))
		}
	}

	return q
}

// genDef makes a presentation definition.
func (w *peWorld) genDef(plain bool) *peDef {
	r := w.r
	d := &peDef{v1: r.Chance(1, 2, "def-v1")}
	n := r.N(1, 4, "descriptors")

	// ids in an order of their own
	ids := []string{"d0", "d1", "d2", "d3"}
	for i := len(ids) - 1; i > 0; i-- {
		j := r.Choose(i+1, "swap")
		ids[i], ids[j] = ids[j], ids[i]
	}

	var descs []any

	j := world.J{"id": fmt.Sprintf("def-%d", r.Choose(1000, "def"))}
	reqs := !plain && r.Chance(1, 2, "requirements")
	size := map[string]int{}

	var groups []string

	for i := 0; i < n; i++ {
		x := w.genDesc(ids[i], d.v1)

		if reqs {
			var gs []any

			for _, g := range []string{"A", "B", "C"} {
				if r.Chance(1, 2, "group") {
					gs = append(gs, g)

					if size[g]++; size[g] == 1 {
						groups = append(groups, g)
					}
				}
			}

			if gs != nil {
				x["group"] = gs
			}
		}

		if !d.v1 && r.Chance(1, 5, "format") {
			x["format"] = w.genFormat()
		}

		descs = append(descs, x)
	}

	j["input_descriptors"] = descs

	if r.Chance(1, 4, "format") {
		j["format"] = w.genFormat()
	}

	if len(groups) > 0 {
		var qs []any
		for i, m := 0, r.N(1, 2, "requirements"); i < m; i++ {
			qs = append(qs, w.genReq(groups, size, 2))
		}

		j["submission_requirements"] = qs
	}

	d.json = j
	d.pd = &presexch.PresentationDefinition{}

	if err := json.Unmarshal(world.Enc(j), d.pd); err != nil {
		panic(err)
	}

	return d
}

func (w *peWorld) genFormat() world.J {
	r := w.r
	f := world.J{}
	algs := []any{"EdDSA", "ES256", "ES384"}
	types := []any{"Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020", "EcdsaSecp256k1Signature2019"}

	ks := []string{"jwt", "jwt_vc", "jwt_vp", "ldp", "ldp_vc", "ldp_vp"}

	for i, n := 0, r.N(1, 3, "designations"); i < n; i++ {
		k := ks[r.Choose(len(ks), "designation")]
		if k[0] == 'j' {
			f[k] = world.J{"alg": pickAny(r, algs)}
		} else {
			f[k] = world.J{"proof_type": pickAny(r, types)}
		}
	}

	return f
}

// pickAny leaves out at most one.
func pickAny(r *core.Run, l []any) []any {
	if !r.Chance(1, 3, "pick") {
		return l
	}

	i := r.Choose(len(l), "drop")

	return append(append([]any{}, l[:i]...), l[i+1:]...)
}

// ---- the oracle ----

func schemaOK(desc world.J, doc world.J) bool {
	ss, ok := desc["schema"].([]any)
	if !ok {
		return true
	}

	have := map[string]bool{}

	for _, t := range doc["type"].([]any) {
		if t == "VerifiableCredential" {
			have["VerifiableCredential"], have["https://www.w3.org/2018/credentials#VerifiableCredential"] = true, true
		} else {
			have[str(t)], have["https://sim.example/pe#"+str(t)] = true, true
		}
	}

	any1 := false

	for _, s := range ss {
		s := s.(world.J)
		hit := have[str(s["uri"])]

		if !hit && s["required"] == true {
			return false
		}

		any1 = any1 || hit
	}

	return any1
}

func fieldsOf(desc world.J) []world.J {
	c, _ := desc["constraints"].(world.J)
	fs, _ := c["fields"].([]any)

	var o []world.J
	for _, f := range fs {
		o = append(o, f.(world.J))
	}

	return o
}

func rawOf(h []peHit) any {
	if len(h) == 1 {
		return h[0].v
	}

	a := []any{}
	for _, x := range h {
		a = append(a, x.v)
	}

	return a
}

// inSeconds is what a filter on a date of a JWT credential sees: the claim of the token, if its field is about dates.
func inSeconds(paths []any, v any) any {
	t, ok := v.(string)
	if !ok {
		return v
	}

	for _, p := range paths {
		for _, k := range []string{".expirationDate", ".issuanceDate", ".validFrom", ".validUntil"} {
			if x, err := time.Parse(time.RFC3339, t); err == nil && strings.Contains(str(p), k) {
				return float64(x.Unix())
			}
		}
	}

	return v
}

// fieldHits gives the places the paths of a field select: of the first path that satisfies it, and of all.
func fieldHits(f, doc world.J, token bool) (ok bool, first, all []peHit) {
	for _, p := range f["path"].([]any) {
		h := locatePath(doc, token, str(p))
		all = append(all, h...)
		good := len(h) > 0

		if good {
			if fl, has := f["filter"].(world.J); has {
				if a, isAll := fl["allOf"].([]any); isAll {
					fl = world.J{"allOf": a}
				}

				v := rawOf(h)
				if token {
					v = inSeconds(f["path"].([]any), v)
				}

				good = filterOK(fl, v)
			}
		} else {
			good = f["optional"] == true
		}

		if good && !ok {
			ok, first = true, h
		}
	}

	return
}

func constraintsOK(desc, doc world.J, token bool) bool {
	c, ok := desc["constraints"].(world.J)
	if !ok {
		return true
	}

	if c["subject_is_issuer"] == "required" && !selfDoc(doc) {
		return false
	}

	for _, f := range fieldsOf(desc) {
		if ok, _, _ := fieldHits(f, doc, token); !ok {
			return false
		}
	}

	return true
}

func selfDoc(doc world.J) bool {
	ss, ok := doc["credentialSubject"].([]any)
	if !ok {
		ss = []any{doc["credentialSubject"]}
	}

	for _, s := range ss {
		m, _ := s.(map[string]any)
		if id := str(m["id"]); id != "" && id == doc["issuer"] {
			return true
		}
	}

	return false
}

// algs is what a designation lists.
func listsAny(f world.J, k, sub string, have []string) bool {
	d, ok := f[k].(world.J)
	if !ok {
		return false
	}

	for _, x := range d[sub].([]any) {
		for _, h := range have {
			if x == h {
				return true
			}
		}
	}

	return false
}

// formatsOf lists the format classes of a definition a credential falls in.
func (d *peDef) formatsOf(desc world.J, c *peCred) (named bool, classes []string) {
	f, ok := desc["format"].(world.J)
	if !ok {
		f, ok = d.json["format"].(world.J)
	}

	if !ok {
		return false, nil
	}

	for _, k := range []string{"ldp", "ldp_vc", "ldp_vp"} {
		if listsAny(f, k, "proof_type", c.proofs) {
			classes = append(classes, k)
		}
	}

	for _, k := range []string{"jwt", "jwt_vc", "jwt_vp"} {
		if listsAny(f, k, "alg", []string{c.alg}) {
			classes = append(classes, k)
		}
	}

	return true, classes
}

func predicateOf(desc world.J) bool {
	for _, f := range fieldsOf(desc) {
		if f["predicate"] == "required" {
			return true
		}
	}

	return false
}

func limits(desc world.J) bool {
	c, _ := desc["constraints"].(world.J)

	return c["limit_disclosure"] == "required"
}

// usable lists the credentials that can answer a descriptor; disclose also asks that its disclosure can be limited as demanded.
func (d *peDef) usable(desc world.J, creds []*peCred, disclose bool) (o []*peCred) {
	pass := func(c *peCred) bool {
		if !schemaOK(desc, c.doc) || !constraintsOK(desc, c.doc, c.form != "ldp") {
			return false
		}

		return !disclose || !limits(desc) || predicateOf(desc) || c.form == "sd" || selfDoc(c.doc)
	}

	named := false

	for _, k := range []string{"ldp", "ldp_vc", "ldp_vp", "jwt", "jwt_vc", "jwt_vp"} {
		for _, c := range creds {
			n, cls := d.formatsOf(desc, c)
			named = n

			if contains(cls, k) && pass(c) {
				o = append(o, c)
			}
		}

		if len(o) > 0 {
			return o
		}
	}

	if named {
		return nil
	}

	for _, c := range creds {
		if pass(c) {
			o = append(o, c)
		}
	}

	return o
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}

	return false
}

// reqOK evaluates a submission requirement on a set of descriptors.
func (d *peDef) reqOK(q world.J, set map[string]bool) bool {
	have, total := 0, 0

	if ns, ok := q["from_nested"].([]any); ok {
		total = len(ns)

		for _, x := range ns {
			if d.reqOK(x.(world.J), set) {
				have++
			}
		}
	} else {
		for _, x := range d.descs() {
			gs, _ := x["group"].([]any)

			for _, g := range gs {
				if g == q["from"] {
					total++

					if set[str(x["id"])] {
						have++
					}

					break
				}
			}
		}
	}

	if q["rule"] == "all" {
		return have == total
	}

	if n, ok := num(q["count"]); ok && have != int(n) {
		return false
	}

	if n, ok := num(q["min"]); ok && have < int(n) {
		return false
	}

	if n, ok := num(q["max"]); ok && have > int(n) {
		return false
	}

	return true
}

// inReq lists the descriptors the requirements mention.
func (d *peDef) inReq() map[string]bool {
	o := map[string]bool{}
	qs, ok := d.json["submission_requirements"].([]any)

	var walk func(q world.J)

	walk = func(q world.J) {
		if ns, ok := q["from_nested"].([]any); ok {
			for _, x := range ns {
				walk(x.(world.J))
			}

			return
		}

		for _, x := range d.descs() {
			gs, _ := x["group"].([]any)
			for _, g := range gs {
				if g == q["from"] {
					o[str(x["id"])] = true
				}
			}
		}
	}

	for _, q := range qs {
		walk(q.(world.J))
	}

	if !ok {
		for _, x := range d.descs() {
			o[str(x["id"])] = true
		}
	}

	return o
}

// satisfied says that a set of descriptors meets the definition's requirements.
func (d *peDef) satisfied(set map[string]bool) bool {
	qs, ok := d.json["submission_requirements"].([]any)
	if !ok {
		return len(set) == len(d.descs())
	}

	for _, q := range qs {
		if !d.reqOK(q.(world.J), set) {
			return false
		}
	}

	return true
}

// solvable says that some set of the given descriptors meets the requirements.
func (d *peDef) solvable(avail map[string]bool) bool {
	in := d.inReq()

	var ids []string

	for _, x := range d.descs() {
		if id := str(x["id"]); avail[id] && in[id] {
			ids = append(ids, id)
		}
	}

	for m := 1; m < 1<<len(ids); m++ {
		set := map[string]bool{}

		for i, id := range ids {
			if m>>i&1 == 1 {
				set[id] = true
			}
		}

		if d.satisfied(set) {
			return true
		}
	}

	return false
}

// ---- what a limited credential may and must disclose ----

// within says that one place is the other or inside it.
func within(in, of []string) bool {
	return len(in) >= len(of) && slices.Equal(in[:len(of)], of)
}

// requested gives the places a descriptor asks for: those it must get, and those it may get.
func requested(desc, doc world.J, token bool) (must, may [][]string) {
	for _, f := range fieldsOf(desc) {
		_, first, all := fieldHits(f, doc, token)
		for _, h := range first {
			must = append(must, h.at)
		}

		for _, h := range all {
			may = append(may, h.at)
		}
	}

	return
}

// checkSD judges the disclosures an SD-JWT was sent with; "" if they are right.
func (c *peCred) checkSD(desc world.J, sent []string) string {
	must, may := requested(desc, c.doc, true)
	have := map[string]bool{}

	for _, s := range sent {
		at, ok := c.locs[s]
		if !ok {
			return "a disclosure the credential does not have: " + s
		}

		if have[s] {
			return fmt.Sprintf("the disclosure of %v is sent twice", at)
		}

		have[s] = true

		if limits(desc) {
			asked := false
			for _, m := range may {
				asked = asked || within(at, m) || within(m, at)
			}

			if !asked {
				return fmt.Sprintf("discloses %v, which is not asked for", at)
			}
		}
	}

	for _, d := range c.discs {
		if have[d] {
			continue
		}

		at := c.locs[d]

		if !limits(desc) {
			return fmt.Sprintf("does not disclose %v although nothing is limited", at)
		}

		for _, m := range must {
			if within(at, m) || within(m, at) {
				return fmt.Sprintf("does not disclose %v, although %v is asked for", at, m)
			}
		}
	}

	return ""
}

// leavesOf lists values with the places they are at, array positions left out.
func leavesOf(v any, at string, o map[string]int) map[string]int {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			leavesOf(e, at+"/"+k, o)
		}
	case []any:
		for _, e := range x {
			leavesOf(e, at+"/[]", o)
		}
	default:
		b, _ := json.Marshal(v)
		o[at+"="+string(b)]++
	}

	return o
}

// prune keeps only the given places of a document.
func prune(v any, at []string, keep [][]string, swap map[string]bool) (any, bool) {
	for _, k := range keep {
		if within(at, k) {
			if swap[strings.Join(k, "\x00")] {
				return true, true
			}

			return v, true
		}
	}

	on := false
	for _, k := range keep {
		on = on || within(k, at)
	}

	if !on {
		return nil, false
	}

	switch x := v.(type) {
	case map[string]any:
		o := world.J{}

		for k, e := range x {
			if p, ok := prune(e, append(append([]string{}, at...), k), keep, swap); ok {
				o[k] = p
			}
		}

		return o, true
	case []any:
		o := []any{}

		for i, e := range x {
			if p, ok := prune(e, append(append([]string{}, at...), strconv.Itoa(i)), keep, swap); ok {
				o = append(o, p)
			}
		}

		return o, true
	}

	return nil, false
}

func b64(s string) []byte {
	b, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		return nil
	}

	return b
}
