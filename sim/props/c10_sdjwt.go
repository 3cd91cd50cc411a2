package props

import (
	"bytes"
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C10", Title: "An SD-JWT is accepted only with disclosures its issuer committed to", Run: runSDTamper,
		Rule:    "one delivery of an SD-JWT presentation to a verifier, a holder or the credential parser, judged by an independent SD-JWT processor and the record of what was signed",
		Measure: "issuer implementation x receiver x delivery tampering x payload defect x verdict",
		Real:    []string{"sdjwt/verifier", "sdjwt/holder", "sdjwt/common", "sdjwt/issuer", "verifiable (SD-JWT credentials)", "jwt", "proof/checker"},
		Stub:    []string{"an independent SD-JWT issuer", "DID registry", "delivery channel", "clock"},
	})
}

// foreignIssuer makes SD-JWTs as another vendor's issuer does: any member at any depth may be disclosable.
type foreignIssuer struct {
	r     *core.Run
	alg   crypto.Hash
	discs []string
	n     int
	tag   string
	flaw  string
	left  int
}

func (f *foreignIssuer) disc(parts ...any) (string, string) {
	f.n++
	b := world.Enc(append([]any{fmt.Sprintf("salt-%s-%d", f.tag, f.n)}, parts...))
	raw := base64.RawURLEncoding.EncodeToString(b)
	f.discs = append(f.discs, raw)

	return raw, sdHash(f.alg, raw)
}

func (f *foreignIssuer) object(o world.J, depth int) world.J {
	r := f.r
	out := world.J{}

	var sd []any

	ks := make([]string, 0, len(o))
	for k := range o {
		ks = append(ks, k)
	}

	sortStrings(ks)

	for _, k := range ks {
		v := f.value(o[k], depth+1)

		if r.Chance(1, 2, "hide") && k != "id" {
			name := k
			parts := []any{name, v}

			switch f.spot("wrong-kind-2", "wrong-kind-4") {
			case "wrong-kind-2":
				parts = []any{v}
			case "wrong-kind-4":
				parts = []any{name, v, "extra"}
			}

			_, dg := f.disc(parts...)
			sd = append(sd, dg)

			switch f.spot("digest-twice-here", "name-taken") {
			case "digest-twice-here":
				sd = append(sd, dg)
			case "name-taken":
				out[k] = "plain"
			}
		} else {
			out[k] = v
		}
	}

	if r.Chance(1, 3, "decoy") {
		sd = append(sd, sdHash(f.alg, fmt.Sprintf("decoy-%s-%d", f.tag, len(f.discs)+r.Choose(1000, "decoy"))))
	}

	if len(sd) > 0 {
		out["_sd"] = sd

		switch f.spot("sd-no-list", "sd-number", "name-twice") {
		case "sd-no-list":
			out["_sd"] = sd[0]
		case "sd-number":
			out["_sd"] = append(sd, 7)
		case "name-twice":
			if len(f.discs) > 0 {
				d, err := decodeDisc(f.discs[len(f.discs)-1], f.alg)
				if err == nil && d.n == 3 {
					_, dg := f.disc(d.name, "other value")
					out["_sd"] = append(sd, dg)
				}
			}
		}
	}

	return out
}

// spot applies the run's one flaw at one of the places it fits.
func (f *foreignIssuer) spot(kinds ...string) string {
	for _, k := range kinds {
		if f.flaw == k {
			if f.left--; f.left == 0 {
				return k
			}
		}
	}

	return ""
}

func (f *foreignIssuer) value(v any, depth int) any {
	r := f.r

	switch x := v.(type) {
	case map[string]any:
		return f.object(x, depth)
	case []any:
		out := []any{}

		for _, e := range x {
			n := f.value(e, depth+1)

			if r.Chance(1, 2, "hide-element") {
				parts := []any{n}
				if f.spot("element-with-name") != "" {
					parts = []any{"name", n}
				}

				_, dg := f.disc(parts...)
				out = append(out, world.J{"...": dg})

				if f.spot("element-twice") != "" {
					out = append(out, world.J{"...": dg})
				}
			} else {
				out = append(out, n)
			}
		}

		return out
	}

	return v
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

var sdFlaws = []string{"", "", "", "", "wrong-kind-2", "wrong-kind-4", "digest-twice-here", "name-taken", "sd-no-list", "sd-number", "name-twice",
	"element-with-name", "element-twice", "digest-twice-apart", "alg-missing", "alg-weak", "alg-odd", "alg-other"}

// foreignIssue signs an SD-JWT made by the independent issuer.
func (w *sdWorld) foreignIssue(vc bool) *sdIssued {
	r := w.r
	w.seq++
	by := w.issuers[r.Choose(len(w.issuers), "issuer")]
	t := genClaims(r, fmt.Sprintf("t%d", w.seq))
	f := &foreignIssuer{r: r, alg: hashOf(r), tag: t.tag, flaw: sdFlaws[r.Choose(len(sdFlaws), "flaw")], left: r.N(1, 4, "flaw-spot")}
	is := &sdIssued{by: by, tree: t, alg: f.alg, vc: vc}
	algName := map[crypto.Hash]string{crypto.SHA256: "sha-256", crypto.SHA384: "sha-384", crypto.SHA512: "sha-512"}[f.alg]

	clean := stripEmpty(world.Clone(t.claims)).(world.J)
	payload := world.J{}

	if vc {
		clean["id"] = "did:sim:holder"
		c := world.J{"@context": []any{world.V1, world.Sim}, "id": fmt.Sprintf("urn:sd:%d", w.seq), "type": []any{"VerifiableCredential"},
			"issuer": by.DID, "issuanceDate": "2024-01-01T00:00:00Z", "credentialSubject": f.object(clean, 0)}

		if r.Chance(1, 2, "flat-vc") {
			payload = c
		} else {
			payload["vc"] = c
		}

		c["_sd_alg"] = algName
	} else {
		payload = f.object(clean, 0)
		payload["_sd_alg"] = algName
	}

	payload["iss"] = by.DID
	holderOf := payload

	if c, ok := payload["vc"].(map[string]any); ok {
		holderOf = c
	}

	switch f.flaw {
	case "alg-missing":
		delete(holderOf, "_sd_alg")
	case "alg-weak":
		holderOf["_sd_alg"] = []any{"sha-1", "md5", "sha-224", "none", ""}[r.Choose(5, "weak")]
	case "alg-odd":
		holderOf["_sd_alg"] = []any{nil, 1, []any{"sha-256"}, true, world.J{}}[r.Choose(5, "odd")]
	case "alg-other":
		holderOf["_sd_alg"] = map[crypto.Hash]string{crypto.SHA256: "sha-384", crypto.SHA384: "sha-512", crypto.SHA512: "sha-256"}[f.alg]
	case "digest-twice-apart":
		if len(f.discs) > 0 {
			dg := sdHash(f.alg, f.discs[r.Choose(len(f.discs), "dup")])

			into := payload
			if vcObj, ok := payload["vc"].(world.J); ok {
				into = vcObj // the only part of the payload a credential is made of
			}

			into["again"] = world.J{"_sd": []any{dg}}
		}
	}

	pb := world.Enc(payload)
	is.payload = world.Dec(pb)
	is.discs = f.discs
	is.jwt = signJWT(by.Cur[0].Key, world.J{"alg": by.Cur[0].Key.Alg, "kid": by.KID(0), "typ": "JWT"}, pb)
	is.combined = strings.Join(append([]string{is.jwt}, is.discs...), "~")
	r.Logf("foreign issue by %s: flaw %q, %d disclosures, vc=%v: %s", by.DID, f.flaw, len(f.discs), vc, clip300(string(pb)))

	return is
}

func clip300(s string) string {
	if len(s) > 300 {
		return s[:300]
	}

	return s
}

// stripEmpty leaves out what SD-JWT processing may drop.
func stripEmpty(v any) any { return normClaims(v) }

func runSDTamper(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newSDWorld(r)

	if r.Chance(1, 4, "registry-faults") {
		w.reg.Fail, w.reg.Slow = 60, 60
	}

	var all []*sdIssued

	for i, n := 0, r.N(1, 3, "documents"); i < n && !r.Failed(); i++ {
		var is *sdIssued

		switch r.Choose(4, "maker") {
		case 0:
			is = w.issue(sdSpec{})
		case 1:
			is = w.issueVC()
		case 2:
			is = w.foreignIssue(false)
		case 3:
			is = w.foreignIssue(true)
		}

		if is != nil {
			all = append(all, is)
		}
	}

	if len(all) == 0 || r.Failed() {
		return
	}

	var tasks []func()

	for i, n := 0, r.N(1, 3, "verifiers"); i < n; i++ {
		tasks = append(tasks, func() {
			for op := 0; op < 4 && !r.Failed(); op++ {
				w.deliver(all)
			}
		})
	}

	r.Parallel("verifier", tasks...)
}

// tamperSD changes a presentation on its way.
func (w *sdWorld) tamperSD(is *sdIssued, all []*sdIssued, tok string, ds []string) (string, []string, string) {
	r := w.r
	other := all[r.Choose(len(all), "other")]
	ds = append([]string{}, ds...)
	pos := r.Choose(len(ds)+1, "at")
	ins := func(d string) []string { return append(append(append([]string{}, ds[:pos]...), d), ds[pos:]...) }

	h, p, sig, _ := splitJWT(tok)
	kind := r.Choose(16, "sd-tamper")

	switch kind {
	case 0:
		if len(other.discs) > 0 && other != is {
			return tok, ins(other.discs[r.Choose(len(other.discs), "foreign")]), "foreign disclosure"
		}
	case 1, 2:
		if len(ds) > 0 {
			i := r.Choose(len(ds), "which")
			b, _ := base64.RawURLEncoding.DecodeString(ds[i])

			var a []any
			_ = json.Unmarshal(b, &a)

			switch r.Choose(7, "edit") {
			case 0:
				if len(a) > 0 {
					a[len(a)-1] = "changed"
				}
			case 1:
				if len(a) == 3 {
					a[1] = "renamed"
				}
			case 2:
				if len(a) > 0 {
					a[0] = "resalted"
				}
			case 3:
				if len(a) == 3 {
					a = []any{a[0], a[2]}
				} else if len(a) == 2 {
					a = []any{a[0], "name", a[1]}
				}
			case 4:
				a = append(a, "more")
			case 5:
				ds[i] = base64.RawURLEncoding.EncodeToString(append(b, ' '))

				return tok, ds, "disclosure reformatted"
			case 6:
				ds[i] = base64.StdEncoding.EncodeToString(b) + "="

				return tok, ds, "disclosure re-encoded"
			}

			ds[i] = base64.RawURLEncoding.EncodeToString(world.Enc(a))

			return tok, ds, "disclosure changed"
		}
	case 3:
		if len(ds) > 0 {
			return tok, ins(ds[r.Choose(len(ds), "dup")]), "disclosure twice"
		}
	case 4:
		for i := range ds {
			j := r.Choose(i+1, "shuffle")
			ds[i], ds[j] = ds[j], ds[i]
		}

		return tok, ds, "reordered"
	case 5:
		return tok, pickPaths(r, ds, 2, 3), "some dropped"
	case 6:
		d := base64.RawURLEncoding.EncodeToString(world.Enc([]any{"s", []any{"iss", "admin", "_sd", "...", "id"}[r.Choose(5, "name")], w.evil.DID}))

		return tok, ins(d), "made-up disclosure"
	case 7:
		return tok, ins([]string{"", "e30", "bnVsbA", "W10", "WzFd", "WzEsMiwzXQ", "!!", "InN0cmluZyI"}[r.Choose(8, "junk")]), "junk disclosure"
	case 8:
		pay := world.Dec(p)
		world.Mutate(r, pay, nil)

		return joinJWT(h, world.Enc(pay), sig), ds, "payload changed"
	case 9:
		// the attacker adds the digest of its own disclosure to the payload
		pay := world.Dec(p)
		d := base64.RawURLEncoding.EncodeToString(world.Enc([]any{"s", "admin", true}))
		l, _ := pay["_sd"].([]any)
		pay["_sd"] = append(l, sdHash(is.alg, d))

		return joinJWT(h, world.Enc(pay), sig), ins(d), "digest added"
	case 10:
		world.Mutate(r, h, nil)

		return joinJWT(h, p, sig), ds, "header changed"
	case 11:
		s := bytes.Clone(sig)
		if len(s) > 0 {
			s[r.Choose(len(s), "sig-byte")] ^= 1
		}

		return joinJWT(h, p, s), ds, "signature changed"
	case 12:
		h["alg"] = "none"
		s := sig

		if r.Chance(1, 2, "nosig") {
			s = nil
		}

		return joinJWT(h, p, s), ds, "unsecured"
	case 13:
		ot, _, _ := splitSD(other.jwt + "~")

		return ot, ds, "another's token"
	case 14:
		hh := world.CloneJ(h)
		if r.Chance(1, 2, "own-kid") {
			hh["kid"] = w.evil.KID(0)
		}

		hh["alg"] = "EdDSA"

		return signJWT(w.evil.Cur[0].Key, hh, p), ds, "re-signed by the attacker"
	case 15:
		// the attacker signs a payload with two iss members
		pay := world.Dec(p)
		victim := is.by.DID
		delete(pay, "iss")
		rest := strings.TrimPrefix(string(world.Enc(pay)), "{")
		name := []string{`"iss"`, `"\u0069ss"`, `"ISS"`}[r.Choose(3, "iss-name")]
		raw := fmt.Sprintf(`{"iss":%q,%s:%q,%s`, w.evil.DID, name, victim, rest)

		if r.Chance(1, 2, "victim-first") {
			raw = fmt.Sprintf(`{%s:%q,"iss":%q,%s`, name, victim, w.evil.DID, rest)
		}

		t := signJWT(w.evil.Cur[0].Key, world.J{"alg": "EdDSA", "kid": w.evil.KID(0)}, []byte(raw))

		return t, ds, "two issuers"
	}

	return tok, ds, "nothing"
}

func (w *sdWorld) deliver(all []*sdIssued) {
	r := w.r
	is := all[r.Choose(len(all), "doc")]
	tok, how := is.jwt, "clean"
	sel, _ := w.selectDiscs(is)

	if r.Chance(2, 3, "tamper") {
		tok, sel, how = w.tamperSD(is, all, tok, sel)
		if how != "clean" && how != "nothing" {
			r.FaultFired("presentation-tampered")
		}
	}

	receiver := r.Choose(3, "receiver")
	pres := strings.Join(append([]string{tok}, sel...), "~")

	if receiver != 1 {
		if len(sel) > 0 || r.Chance(1, 2, "separator") {
			pres += "~"
		}
	}

	intact := true

	if r.Chance(1, 8, "corrupt") {
		switch r.Choose(3, "corrupt-how") {
		case 0:
			pres = pres[:r.Choose(len(pres)+1, "cut")]
		case 1:
			pres = world.GarbleText(r, pres)
		case 2:
			pres = strings.Replace(pres, "~", []string{"~~", "", " ~", "~\n"}[r.Choose(4, "sep")], 1)
		}

		how += ", corrupted"
		intact = false

		r.FaultFired("presentation-corrupted")
	}

	// what was really delivered
	dtok, ddiscs, tail := splitSD(pres + "~")
	if receiver != 1 && strings.HasSuffix(pres, "~") {
		dtok, ddiscs, tail = splitSD(pres)
	} else if receiver != 1 && len(ddiscs) > 0 {
		// the last part is taken for a holder binding by a verifier
		intact = false
	}

	_ = tail

	// is it a token somebody signed?
	var origin *sdIssued

	dh, dp, _, dok := splitJWT(dtok)

	for _, s := range all {
		h, p, _, _ := splitJWT(s.jwt)
		if dok && world.Same(h, dh) && bytes.Equal(p, dp) {
			origin = s
		}
	}

	_, _, sigD, _ := splitJWT(dtok)
	exact := false

	if origin != nil {
		_, _, sigO, _ := splitJWT(origin.jwt)
		exact = bytes.Equal(sigO, sigD)
	}

	dup := false

	for i := range ddiscs {
		for j := range ddiscs[:i] {
			dup = dup || ddiscs[i] == ddiscs[j]
		}
	}

	var (
		ref    world.J
		refErr error
		out    any
		err    error
	)

	if dok {
		refErr = fmt.Errorf("no _sd_alg")
		pay := world.Dec(dp)

		algObj, has := pay["_sd_alg"]
		if !has {
			if vc, ok := pay["vc"].(map[string]any); ok {
				algObj = vc["_sd_alg"]
			}
		}

		if alg, ok := map[any]crypto.Hash{"sha-256": crypto.SHA256, "sha-384": crypto.SHA384, "sha-512": crypto.SHA512}[algKey(algObj)]; ok {
			ref, refErr = refProcess(pay, ddiscs, alg)
		}
	}

	from := len(w.reg.Log)
	who := []string{"verifier", "holder", "credential"}[receiver]

	if receiver == 2 && !is.vc {
		receiver, who = 0, "verifier"
	}

	// what else the receiver insists on
	strict := receiver == 1 && r.Chance(1, 2, "strict-holder")
	timed := receiver == 0 || strict
	typ, algs := "", allAlgs

	if timed && r.Chance(1, 5, "expected-typ") {
		typ = []string{"JWT", "vc+sd-jwt", "jwt"}[r.Choose(3, "typ")]
	}

	if timed && r.Chance(1, 6, "allowed-algs") {
		algs = [][]string{{"EdDSA"}, {"ES256", "ES384"}, {"none"}}[r.Choose(3, "algs")]
	}

	dh0, _, _, _ := splitJWT(dtok)
	policy := (typ == "" || dh0["typ"] == typ) && (!timed || slices.Contains(algs, str(dh0["alg"])))

	var display *verifiable.Credential

	shown := false

	if p := core.Do(func() {
		switch receiver {
		case 0:
			var m map[string]any

			m, err = verifier.Parse(pres, verifier.WithSignatureVerifier(w.checker), verifier.WithIssuerSigningAlgorithms(algs), verifier.WithExpectedTypHeader(typ))
			out, shown = m, true
		case 1:
			hopts := []holder.ParseOpt{holder.WithSignatureVerifier(w.checker)}
			if strict {
				hopts = append(hopts, holder.WithSDJWTV5Validation(true), holder.WithIssuerSigningAlgorithms(algs),
					holder.WithLeewayForClaimsValidation(time.Minute), holder.WithExpectedTypHeader(typ))
			}

			_, err = holder.Parse(pres, hopts...)
		case 2:
			var c *verifiable.Credential

			c, err = verifiable.ParseCredential([]byte(pres), verifiable.WithJWTProofChecker(w.checker), verifiable.WithLDProofChecker(nil),
				verifiable.WithDisabledRelatedResourceCheck(), verifiable.WithCredDisableValidation())

			if err == nil && len(c.SDJWTDisclosures()) > 0 {
				display, err = c.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
				if err == nil {
					out, shown = subjectOf(display.ToRawJSON()), true
				}
			}
		}
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "%s: reading an SD-JWT (%s) panicked: %s\n%s\n%s", who, how, p, pres, deepText(dp, ddiscs))

		return
	}

	r.Eval("%s %s flaw=%v ref=%v accepted=%v", who, how, origin != nil && origin.flawed(), refErr == nil, err == nil)

	desc := fmt.Sprintf("(%s to %s)\ntoken %s\npayload %s\ndisclosures %s", how, who, dtok, dp, deepText(nil, ddiscs))

	if err != nil {
		r.Logf("%s %s: refused: %v", who, how, err)

		if receiver == 2 && len(ddiscs) == 0 {
			return // an ordinary JWT credential, see C05
		}

		if timed && dok && (!policy || timeVerdict(world.Dec(dp), time.Minute) != timeFine) {
			return
		}

		if intact && exact && refErr == nil && !dup && !w.registryFailed(from) {
			r.Violate("false-reject", who, "a genuine SD-JWT was refused: %v %s", err, desc)
		}

		return
	}

	r.Logf("%s %s: accepted", who, how)

	if origin == nil && strings.HasPrefix(how, "two issuers") && world.Dec(dp)["iss"] == w.evil.DID {
		// genuinely issued by the other issuer; it must not be taken for the victim's
		if m, ok := out.(map[string]any); ok && receiver == 0 && m["iss"] != w.evil.DID {
			r.Violate("accepted-forged", who+" "+how, "an SD-JWT of another issuer is read as %v's %s", m["iss"], desc)
		}

		if display != nil && display.Contents().Issuer.ID != w.evil.DID {
			r.Violate("accepted-forged", who+" "+how, "an SD-JWT of another issuer is read as %v's %s", display.Contents().Issuer.ID, desc)
		}

		return
	}

	if origin == nil {
		r.Violate("accepted-forged", who+" "+how, "an SD-JWT which its issuer never signed was accepted %s", desc)

		return
	}

	if receiver == 2 && len(ddiscs) == 0 {
		return
	}

	if !policy {
		r.Violate("accepted-against-policy", who, "an SD-JWT was accepted whose header is not what the receiver asked for (type %q, algorithms %v) %s", typ, algs, desc)
	}

	if timed && timeVerdict(world.Dec(dp), time.Minute) == timeBad {
		r.Violate("accepted-out-of-time", who, "at %s an SD-JWT outside its validity period was accepted %s", time.Now().UTC(), desc)
	}

	if refErr != nil {
		r.Violate("accepted-bad", who, "an SD-JWT that must be refused (%v) was accepted %s", refErr, desc)

		return
	}

	if dup && receiver == 0 {
		r.Violate("accepted-duplicate", who, "a presentation with the same disclosure twice was accepted %s", desc)
	}

	if !shown {
		return
	}

	want := any(ref)
	if receiver == 2 {
		want = subjectOf(ref)
	}

	if !world.Same(normClaims(rejson(out)), normClaims(rejson(want))) {
		r.Violate("wrong-claims", who, "the claims read are wrong:\ngot  %s\nwant %s %s", world.Enc(out), world.Enc(want), desc)
	}
}

func (s *sdIssued) flawed() bool { _, err := refProcess(s.payload, s.discs, s.alg); return err != nil }

func algKey(v any) any {
	if s, ok := v.(string); ok {
		return strings.ToLower(s)
	}

	return nil
}
