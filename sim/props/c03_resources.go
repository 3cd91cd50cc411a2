package props

import (
	"bytes"
	"crypto"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/hashicorp/golang-lru/v2/expirable"
	"github.com/multiformats/go-multibase"

	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C03", Title: "Altered related resources never pass a credential's digests", Run: runResources,
		Rule:    "one check of the related resources of one or more credentials (parsed alone, in a presentation, or given to a validator), its verdict compared with the digests and the bytes the network delivered",
		Measure: "entry point x digest form x digest defect x delivery fault x cache state x verdict",
		Real:    []string{"verifiable (related resource validator, credential and presentation parsing)", "golang-lru (cache)"},
		Stub:    []string{"HTTP servers and network", "goroutine scheduling", "clock", "the cache's janitor goroutine"},
	})
}

const resourceTTL = time.Minute

type resEntry struct {
	url    string
	sri    any // what the credential has, nil for none
	mb     any
	form   string
	defect string
	// what is stated, if it is well formed
	sriH, mbH crypto.Hash // 0: none
	sriD, mbD []byte
	valid     bool // every digest the entry has is well formed, and it has one
}

type resWorld struct {
	r    *core.Run
	net  *world.Net
	urls []string
	old  map[string][][]byte
	seq  int
}

func sumOf(h crypto.Hash, b []byte) []byte {
	x := h.New()
	x.Write(b)

	return x.Sum(nil)
}

func (w *resWorld) body() []byte {
	w.seq++

	n := []int{1, 7, 200, 600, 3000}[w.r.Choose(5, "size")]

	return append([]byte(fmt.Sprintf("resource %d ", w.seq)), bytes.Repeat([]byte{byte('a' + w.seq%26)}, n)...)
}

func (w *resWorld) serve(url string) {
	b := w.body()
	w.old[url] = append(w.old[url], b)
	w.net.Serve(url, &world.Resource{Body: b, Type: "text/plain"})
}

// mbEnc encodes like multibase; base58 comes from the library.
func mbEnc(k int, b []byte) string {
	switch k {
	case 0:
		return "u" + base64.RawURLEncoding.EncodeToString(b)
	case 1:
		return "M" + base64.StdEncoding.EncodeToString(b)
	case 2:
		return "m" + base64.RawStdEncoding.EncodeToString(b)
	case 3:
		return "f" + hex.EncodeToString(b)
	case 4:
		return "U" + base64.URLEncoding.EncodeToString(b)
	}

	s, _ := multibase.Encode(multibase.Base58BTC, b)

	return s
}

var multihashCode = map[crypto.Hash][]byte{crypto.SHA256: {0x12, 0x20}, crypto.SHA384: {0x20, 0x30}, crypto.SHA512: {0x13, 0x40}}

// entry makes one related resource of a credential.
func (w *resWorld) entry() *resEntry {
	r := w.r
	e := &resEntry{url: w.urls[r.Choose(len(w.urls), "url")], valid: true}
	hist := w.old[e.url]
	body := hist[len(hist)-1]

	kind := r.Choose(3, "digest-kind") // SRI, multibase, both

	if kind != 1 {
		h := []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}[r.Choose(3, "alg")]
		name := map[crypto.Hash]string{crypto.SHA256: "sha256", crypto.SHA384: "sha384", crypto.SHA512: "sha512"}[h]
		d := w.digestOf(e, h, body, "sri")
		e.sriH, e.sriD = h, d

		switch r.Choose(3, "sri-form") {
		case 0: // subresource integrity
			e.sri, e.form = name+"-"+base64.StdEncoding.EncodeToString(d), "sri"
		case 1:
			e.sri, e.form = name+"-"+mbEnc(r.Choose(6, "base"), d), "sri-multibase"
		case 2:
			e.sri, e.form = name+"-"+mbEnc(r.Choose(6, "base"), append(append([]byte{}, multihashCode[h]...), d...)), "sri-multihash"
		}
	}

	if kind != 0 {
		d := w.digestOf(e, crypto.SHA256, body, "mb")
		e.mbH, e.mbD = crypto.SHA256, d

		b := d
		e.form += "+multibase"

		if r.Chance(2, 3, "multihash") {
			b = append(append([]byte{}, multihashCode[crypto.SHA256]...), d...)
			e.form += "-multihash"
		}

		e.mb = mbEnc(r.Choose(6, "base"), b)
	}

	if !r.Chance(1, 4, "malformed") {
		return e
	}

	// something is wrong with how a digest is written
	e.valid = false
	v := &e.sri
	h, prefix := crypto.SHA256, "sha256-"

	if r.Chance(1, 2, "defect-alg") {
		h, prefix = crypto.SHA512, "sha512-"
		if r.Chance(1, 2, "defect-alg") {
			h, prefix = crypto.SHA384, "sha384-"
		}
	}

	// the digest as multibase, or as a digest of subresource integrity
	write := func(b []byte) string {
		if prefix != "" && r.Chance(1, 2, "defect-form") {
			return base64.StdEncoding.EncodeToString(b)
		}

		return mbEnc(r.Choose(6, "base"), b)
	}

	if e.sri == nil || e.mb != nil && r.Chance(1, 2, "which") {
		v, h, prefix = &e.mb, crypto.SHA256, ""
	}

	d := sumOf(h, body)
	k := r.Choose(12, "defect")

	switch k {
	case 0:
		*v = prefix + "u"
	case 1:
		*v = prefix + "uEg"
	case 2:
		*v = prefix + "uEiA"
	case 3:
		*v = prefix + write(d[:r.Choose(len(d), "cut")])
	case 4:
		*v = prefix + write(append(append([]byte{}, d...), 0))
	case 5:
		*v = prefix + "#" + base64.StdEncoding.EncodeToString(d)
	case 6:
		*v = "md5-" + mbEnc(1, sumOf(crypto.MD5, body))
	case 7:
		*v = 7.0
	case 8:
		*v = prefix
	case 9:
		*v = strings.Replace(prefix, "-", "", 1)
	case 10:
		*v = world.J{"a": "b"}
	case 11: // no digest at all
		e.sri, e.mb = nil, nil
	}

	if k != 11 && *v == "" { // an empty digest is none
		if v == &e.sri {
			e.sriH = 0
		} else {
			e.mbH = 0
		}

		e.valid = e.sriH != 0 || e.mbH != 0
	}

	e.defect = fmt.Sprintf("malformed-%d", k)

	return e
}

// digestOf is the digest of what is served, or of something else.
func (w *resWorld) digestOf(e *resEntry, h crypto.Hash, body []byte, where string) []byte {
	r := w.r
	hist := w.old[e.url]

	if !r.Chance(1, 5, "other-digest") {
		return sumOf(h, body)
	}

	e.defect += where

	switch r.Choose(5, "of") {
	case 0:
		return sumOf(h, hist[0])
	case 1:
		return sumOf(h, w.old[w.urls[r.Choose(len(w.urls), "of-url")]][0])
	case 2:
		return sumOf(h, append(append([]byte{}, body...), ' '))
	case 3:
		d := sumOf(h, body)
		d[r.Choose(len(d), "bit")] ^= 1 << r.Choose(8, "bit")

		return d
	}

	return make([]byte, h.Size())
}

func (e *resEntry) json() world.J {
	j := world.J{"id": e.url}
	if e.sri != nil {
		j["digestSRI"] = e.sri
	}

	if e.mb != nil {
		j["digestMultibase"] = e.mb
	}

	return j
}

// fits says whether bytes are what the entry states.
func (e *resEntry) fits(b []byte) bool {
	if !e.valid || len(b) == 0 {
		return false
	}

	return (e.sriH == 0 || bytes.Equal(sumOf(e.sriH, b), e.sriD)) && (e.mbH == 0 || bytes.Equal(sumOf(e.mbH, b), e.mbD))
}

func runResources(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 4, 32}[r.Choose(3, "preempt")]})

	w := &resWorld{r: r, net: world.NewNet(r), old: map[string][][]byte{}}

	for i, n := 0, r.N(1, 4, "resources"); i < n; i++ {
		u := fmt.Sprintf("https://res%d.example/r", i)
		w.urls = append(w.urls, u)
		w.serve(u)
	}

	if r.Chance(1, 2, "faults") {
		w.net.Rate = []int{80, 300}[r.Choose(2, "rate")]
	}

	opts := []func(*verifiable.RelatedResourceValidatorOptions){verifiable.WithHTTPClient(w.net)}

	if r.Chance(1, 3, "small-cache") {
		opts = append(opts, verifiable.WithCache(expirable.NewLRU[string, *verifiable.CachedResource](r.N(1, 2, "size"), nil, resourceTTL)))
	}

	v := verifiable.NewRelatedResourceValidator(opts...)

	prev := verifiable.DefaultRelatedResourceValidator
	verifiable.DefaultRelatedResourceValidator = v

	defer func() { verifiable.DefaultRelatedResourceValidator = prev }()

	var tasks []func()

	for i, n := 0, r.N(1, 3, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			for op, n := 0, r.N(1, 4, "ops"); op < n && !r.Failed(); op++ {
				w.check(v)

				switch r.Choose(4, "between") {
				case 1:
					r.Sleep(time.Duration(r.N(1, 40, "pause")) * time.Second)
				case 2:
					r.Sleep(2 * resourceTTL)
				case 3:
					w.serve(w.urls[r.Choose(len(w.urls), "update")])
				}
			}
		})
	}

	r.Parallel("verifier", tasks...)

	if o := w.net.Open(); len(o) > 0 && !r.Failed() {
		r.Violate("leak", "body", "response bodies that were never closed: %q", o)
	}
}

func (w *resWorld) check(v *verifiable.RelatedResourceValidator) {
	r := w.r

	var (
		docs []world.J
		es   []*resEntry
		how  []string
	)

	for i, n := 0, r.N(1, 2, "credentials"); i < n; i++ {
		doc := world.GenVC(r, world.VCSpec{Issuer: "did:sim:issuer", Subject: "did:sim:subject", V2: true, Seq: w.seq})

		var list []any

		for k, m := 0, r.N(0, 3, "entries"); k < m; k++ {
			e := w.entry()
			es = append(es, e)
			list = append(list, e.json())
			how = append(how, e.form+" "+e.defect)
		}

		if list != nil {
			doc["relatedResource"] = list
		}

		docs = append(docs, doc)
	}

	entry := []string{"parse", "presentation", "validate"}[r.Choose(3, "entry")]
	if entry == "parse" {
		if c := len(docs); c > 1 {
			list, _ := docs[1]["relatedResource"].([]any)
			es, how = es[:len(es)-len(list)], how[:len(how)-len(list)]
			docs = docs[:1]
		}
	}

	jwts := r.Chance(1, 3, "jwt")
	wire := func(d world.J) []byte {
		if !jwts {
			return world.Enc(d)
		}

		return []byte(joinJWT(world.J{"alg": "none"}, world.Enc(d), nil))
	}

	l := world.NewLoader(r)
	start, from := time.Now(), len(w.net.Log)
	base := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(l), verifiable.WithCredDisableValidation()}

	var err error

	p := core.Do(func() {
		switch entry {
		case "parse":
			_, err = verifiable.ParseCredential(wire(docs[0]), base...)
		case "presentation":
			vp := world.J{"@context": []any{world.V2}, "type": []any{"VerifiablePresentation"}, "holder": "did:sim:holder", "verifiableCredential": anys(docs)}
			if jwts {
				for i, d := range docs {
					vp["verifiableCredential"].([]any)[i] = world.J{"@context": world.V2, "type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + string(wire(d))}
				}
			}

			_, err = verifiable.ParsePresentation(world.Enc(vp), verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(),
				verifiable.WithPresJSONLDDocumentLoader(l), verifiable.WithPresRelatedResourceCheck(true))
		case "validate":
			var cs []*verifiable.Credential

			for _, d := range docs {
				c, e := verifiable.ParseCredential(wire(d), append(base, verifiable.WithDisabledRelatedResourceCheck())...)
				if e != nil {
					err = e

					return
				}

				cs = append(cs, c)
			}

			err = v.Validate(cs)
		}
	})

	what := fmt.Sprintf("%s of %s", entry, encAll(docs))
	if jwts {
		entry += "-jwt"
	}

	if p != "" {
		r.Violate("panic", core.PanicSite(p), "%s panicked: %s", what, p)

		return
	}

	// what the validator may have looked at: bodies read in full no more than a minute before, or during the check
	var faulty bool

	used := func(url string) (bodies [][]byte) {
		for i, x := range w.net.Log {
			if x.URL != url {
				continue
			}

			if i >= from && (x.Err || x.Status != 200 || len(x.Served) == 0) {
				faulty = true
			}

			if !x.Err && x.Status == 200 && len(x.Served) > 0 && !x.Done.IsZero() && x.Done.Add(resourceTTL).Compare(start) >= 0 {
				bodies = append(bodies, x.Served)
			}
		}

		return bodies
	}

	explained := false // a refusal has a reason

	for i, e := range es {
		some, all := false, true

		for _, b := range used(e.url) {
			if e.fits(b) {
				some = true
			} else {
				all = false
			}
		}

		if !all || !some || !e.valid {
			explained = true
		}

		if err == nil && !some {
			r.Violate("accepted", entry+" "+how[i], "a resource whose digest is not that of what was delivered (%s) passed: %s\n%s", how[i], world.Enc(e.json()), what)

			return
		}
	}

	if err != nil && !explained && !faulty {
		r.Violate("refused", entry, "right resources were refused: %v\n%s", err, what)
	}

	cached := len(w.net.Window(from)) == 0 && len(es) > 0
	sig := "none"

	if len(how) > 0 {
		sig = how[0]
	}

	last := ""
	for _, x := range w.net.Log[from:] {
		if x.Fault != 0 {
			last = x.FaultName()
		}
	}

	r.Eval("%s %d %s cached=%v fault=%s ok=%v", entry, len(es), sig, cached, last, err == nil)
}

func anys(docs []world.J) (o []any) {
	for _, d := range docs {
		o = append(o, d)
	}

	return o
}
