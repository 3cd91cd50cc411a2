package props

import (
	"crypto"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C09", Title: "An SD-JWT shows its verifier the selected claims and nothing else", Run: runSDDisclose,
		Rule:    "one issuance, one presentation or one display of an SD-JWT, judged by where each uniquely marked claim value can be read and by an independent SD-JWT processor",
		Measure: "format version x issuer options x selection kind x injected fault x verdict",
		Real:    []string{"sdjwt/issuer", "sdjwt/holder", "sdjwt/verifier", "sdjwt/common", "verifiable (SD-JWT credentials)", "jwt", "proof/checker"},
		Stub:    []string{"DID registry", "remote signer", "salt source", "clock"},
	})
}

var errSalt = errors.New("sim: no entropy")

func runSDDisclose(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newSDWorld(r)

	if r.Chance(1, 4, "registry-faults") {
		w.reg.Fail, w.reg.Slow = 60, 60
	}

	var tasks []func()

	for i, n := 0, r.N(1, 3, "actors"); i < n; i++ {
		tasks = append(tasks, func() {
			for op := 0; op < 2 && !r.Failed(); op++ {
				var is *sdIssued

				if r.Chance(1, 3, "credential") {
					is = w.issueVC()
				} else {
					is = w.issue(sdSpec{faults: r.Chance(1, 4, "issue-faults")})
				}

				if is == nil {
					continue
				}

				for p := 0; p < 2 && !r.Failed(); p++ {
					if is.vc {
						w.presentVC(is)
					} else {
						w.present(is)
					}
				}
			}
		})
	}

	r.Parallel("actor", tasks...)
}

type sdSpec struct {
	faults bool
	holder *world.Key
	times  bool
	cred   bool // the claims are a credential's
}

// issue makes an SD-JWT with the issuer package and checks what it gives away.
func (w *sdWorld) issue(sp sdSpec) *sdIssued {
	r := w.r
	w.seq++
	by := w.issuers[r.Choose(len(w.issuers), "issuer")]
	t := genClaims(r, fmt.Sprintf("t%d", w.seq))
	v5 := r.Chance(1, 2, "v5")
	opts, visible, desc := sdIssueOpts(r, t, v5, sp.cred)
	is := &sdIssued{by: by, tree: t, v5: v5, alg: crypto.SHA256, visible: visible, holder: sp.holder}

	if r.Chance(1, 2, "other-hash") {
		is.alg = hashOf(r)
		opts = append(opts, issuer.WithHashAlgorithm(is.alg))
	}

	decoys := r.Chance(1, 2, "decoys")
	if decoys {
		opts = append(opts, issuer.WithDecoyDigests(true))
	}

	if sp.holder != nil {
		opts = append(opts, issuer.WithHolderPublicKey(sp.holder.JWK))
	}

	if sp.times {
		now := time.Now().Unix()

		if r.Chance(1, 2, "exp") {
			is.exp = now + int64(r.N(1, 600, "exp"))
			opts = append(opts, issuer.WithExpiry(jwt.NewNumericDate(time.Unix(is.exp, 0))))
		}

		if r.Chance(1, 2, "nbf") {
			is.nbf = now + int64(r.N(0, 600, "nbf")) - 100
			opts = append(opts, issuer.WithNotBefore(jwt.NewNumericDate(time.Unix(is.nbf, 0))))
		}
	}

	// the registered claims of the token itself, and its type
	said := world.J{"iss": by.DID}

	if sp.holder != nil {
		said["cnf"] = world.J{"jwk": world.Dec(world.Enc(sp.holder.JWK))}
	}

	if is.exp != 0 {
		said["exp"] = float64(is.exp)
	}

	if is.nbf != 0 {
		said["nbf"] = float64(is.nbf)
	}

	if r.Chance(1, 3, "registered-claims") {
		for i, o := range []func(string) issuer.NewOpt{issuer.WithSubject, issuer.WithAudience, issuer.WithJTI, issuer.WithID} {
			k := []string{"sub", "aud", "jti", "id"}[i]
			said[k] = "urn:" + k + ":" + t.tag
			opts = append(opts, o(str(said[k])))
		}

		iat := time.Now().Unix() - 100
		if sp.times {
			iat = time.Now().Unix() + int64(r.N(0, 300, "iat")) - 100
		}

		said["iat"] = float64(iat)
		opts = append(opts, issuer.WithIssuedAt(jwt.NewNumericDate(time.Unix(iat, 0))))
	}

	is.typ = []string{"", "", "JWT", "vc+sd-jwt", "dc+sd-jwt"}[r.Choose(5, "typ")]
	headers := jose.Headers{"kid": by.KID(0)}

	if is.typ != "" {
		headers["typ"] = is.typ
	}

	s := &world.Signer{K: by.Cur[0].Key, R: r}
	failed := false

	if sp.faults {
		s.Fail = 300
		left := r.Choose(6, "salts")

		if r.Chance(1, 2, "salt-fault") {
			opts = append(opts, issuer.WithSaltFnc(func() (string, error) {
				if left--; left < 0 {
					failed = true
					r.FaultFired("salt-source-failure")

					return "", errSalt
				}

				return fmt.Sprintf("some-salt-%d", left), nil
			}))
		}
	}

	var (
		tok      *issuer.SelectiveDisclosureJWT
		combined string
		err      error
	)

	before := world.Clone(t.claims)

	var in any = t.claims

	if r.Chance(1, 3, "claims-as-bytes") {
		in = world.Enc(t.claims)
	} else if r.Chance(1, 8, "claims-as-text") {
		in = string(world.Enc(t.claims))
	}

	if p := core.Do(func() {
		tok, err = issuer.New(by.DID, in, headers, joseSigner{s}, opts...)
		if err == nil {
			combined, err = tok.Serialize(false)
		}
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "SD-JWT issuance panicked: %s\nclaims %s (%s)", p, world.Enc(before), desc)

		return nil
	}

	if !world.Same(before, t.claims) {
		r.Violate("input-changed", "issuer", "issuance changed the caller's claims from %s to %s", world.Enc(before), world.Enc(t.claims))
	}

	failed = failed || s.Failures > 0

	if err != nil {
		r.Eval("issue %s refused faulted=%v", desc, failed)

		if !failed {
			r.Violate("cannot-issue", desc, "valid claims could not be issued: %v\n%s", err, world.Enc(before))
		}

		return nil
	}

	if failed {
		r.Violate("issued-despite-fault", desc, "an SD-JWT was issued although its signer or salt source failed: %s", combined)

		return nil
	}

	is.combined = combined
	is.jwt, is.discs, _ = splitSD(combined + "~")

	if len(combined) > 0 && !strings.Contains(combined, "~") {
		is.discs = nil
	}

	hd, pay, _, ok := splitJWT(is.jwt)
	is.payload = world.Dec(pay)

	if str(hd["typ"]) != is.typ || hd["kid"] != by.KID(0) {
		r.Violate("malformed", "header", "the issued SD-JWT has header %v, asked for type %q", hd, is.typ)
	}

	if !ok || is.payload == nil {
		r.Violate("malformed", "issue", "the issued SD-JWT does not decode: %s", combined)

		return nil
	}

	r.Logf("issue %s by %s: %d disclosures", desc, by.DID, len(is.discs))
	r.Eval("issue %s decoys=%v discs=%d", desc, decoys, min(len(is.discs), 4))

	if is.payload["iss"] != by.DID {
		r.Violate("malformed", "iss", "the issued SD-JWT names issuer %v, want %s", is.payload["iss"], by.DID)
	}

	w.checkIssued(is, pay, sp.faults)

	full, err := refProcess(is.payload, is.discs, is.alg)
	if err != nil {
		r.Violate("malformed", "ref", "the issued SD-JWT (%s) is malformed: %v\nclaims %s\npayload %s\ndisclosures %s", desc, err, world.Enc(before), pay, deepText(nil, is.discs))

		return nil
	}

	for _, k := range []string{"iss", "cnf", "exp", "nbf", "iat", "sub", "aud", "jti", "id"} {
		if !world.Same(normClaims(world.J{"v": full[k]}), normClaims(world.J{"v": said[k]})) {
			r.Violate("registered-claim", k, "the issued SD-JWT (%s) says %s %v, its issuer said %v\n%s", desc, k, full[k], said[k], pay)
		}

		delete(full, k)
	}

	if !world.Same(normClaims(full), normClaims(rejson(t.claims))) {
		r.Violate("lost-claims", "issue", "the issued SD-JWT (%s) does not carry the issuer's claims:\ngot  %s\nwant %s", desc, world.Enc(full), world.Enc(t.claims))
	}

	return is
}

// checkIssued looks for claim values that can be read without a disclosure.
func (w *sdWorld) checkIssued(is *sdIssued, pay []byte, saltsGiven bool) {
	r := w.r
	text := string(pay)
	salts := map[string]bool{}

	for _, l := range is.tree.leaves {
		if is.visible(l) {
			if !strings.Contains(l.path, ".") && !l.array && !strings.Contains(text, l.marker) {
				r.Violate("not-visible", "issue", "the claim %s was to be always visible but is not in the signed payload %s", l.path, text)
			}

			continue
		}

		if strings.Contains(text, l.marker) {
			r.Violate("claim-exposed", "payload", "the selectively disclosable claim %s can be read in the signed payload %s", l.path, text)
		}

		if l.key != "" && is.tree.uses(l.key) == 1 && strings.Contains(text, l.key) {
			r.Violate("name-exposed", "payload", "the name of the selectively disclosable claim %s can be read in the signed payload %s", l.path, text)
		}

		n := 0

		for _, d := range is.discs {
			if strings.Contains(deepText(nil, []string{d}), l.marker) {
				n++
			}
		}

		if n != 1 {
			r.Violate("disclosure-count", "issue", "the claim %s is in %d disclosures, want 1: %s", l.path, n, deepText(nil, is.discs))
		}
	}

	for _, raw := range is.discs {
		d, err := decodeDisc(raw, is.alg)
		if err != nil {
			r.Violate("malformed", "disclosure", "the issuer made a malformed disclosure %q: %v", raw, err)

			return
		}

		if !saltsGiven && len(d.salt) < 22 {
			r.Violate("weak-salt", "length", "a disclosure's salt %q has less than 128 bits", d.salt)
		}

		if salts[d.salt] && !saltsGiven {
			r.Violate("weak-salt", "repeated", "the salt %q is used twice in one SD-JWT", d.salt)
		}

		salts[d.salt] = true

		if what := malformedSD(d.value); what != "" {
			r.Violate("malformed", "digests", "a disclosure holds %s: %s", what, deepText(nil, []string{raw}))
		}
	}

	if what := malformedSD(world.Dec(pay)); what != "" {
		r.Violate("malformed", "digests", "the issued SD-JWT holds %s: %s", what, pay)
	}
}

// malformedSD says what is wrong with an issuer's digests anywhere in v: an _sd member is a list of texts, a placeholder is a text.
func malformedSD(v any) string {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			if k == "_sd" {
				l, ok := x[k].([]any)
				if !ok {
					return "an _sd that is no list"
				}

				for _, e := range l {
					if _, ok := e.(string); !ok {
						return "a digest that is no text"
					}
				}

				continue
			}

			if _, ok := x[k].(string); k == "..." && !ok {
				return "a placeholder that is no text"
			}

			if what := malformedSD(x[k]); what != "" {
				return what
			}
		}
	case []any:
		for _, e := range x {
			if what := malformedSD(e); what != "" {
				return what
			}
		}
	}

	return ""
}

// select picks disclosures: any, closed under nesting or not.
func (w *sdWorld) selectDiscs(is *sdIssued) ([]string, string) {
	r := w.r

	switch r.Choose(5, "selection") {
	case 0:
		return append([]string{}, is.discs...), "all"
	case 1:
		return nil, "none"
	case 2:
		if len(is.discs) == 0 {
			return nil, "none"
		}

		return []string{is.discs[r.Choose(len(is.discs), "one")]}, "one"
	}

	return pickPaths(r, is.discs, 1, 2), "some"
}

// present runs holder and verifier on an issued SD-JWT.
func (w *sdWorld) present(is *sdIssued) {
	r := w.r

	var (
		claims []*holder.Claim
		pres   string
		err    error
	)

	from := len(w.reg.Log)
	v5v := r.Chance(1, 2, "v5-holder")

	if p := core.Do(func() {
		hopts := []holder.ParseOpt{holder.WithSignatureVerifier(w.checker)}
		if v5v {
			hopts = append(hopts, holder.WithSDJWTV5Validation(true), holder.WithIssuerSigningAlgorithms(allAlgs), holder.WithLeewayForClaimsValidation(jwt.DefaultLeeway))
		}

		claims, err = holder.Parse(is.combined, hopts...)
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "holder.Parse panicked: %s\n%s", p, is.combined)

		return
	}

	if err != nil {
		if !w.registryFailed(from) {
			r.Violate("holder-refuses", "genuine", "the holder refused a genuine SD-JWT: %v\n%s", err, is.combined)
		}

		return
	}

	var got, want []string
	for _, c := range claims {
		got = append(got, c.Disclosure)
	}

	want = append(want, is.discs...)
	sort.Strings(got)
	sort.Strings(want)

	if strings.Join(got, " ") != strings.Join(want, " ") {
		r.Violate("holder-claims", "genuine", "the holder sees disclosures %v, the issuer sent %v", got, want)
	}

	sel, how := w.selectDiscs(is)

	if p := core.Do(func() { pres, err = holder.CreatePresentation(is.combined, sel) }); p != "" {
		r.Violate("panic", core.PanicSite(p), "CreatePresentation panicked: %s", p)

		return
	}

	if err != nil {
		if len(is.discs) > 0 {
			r.Violate("cannot-present", how, "the holder could not present %d of %d disclosures: %v", len(sel), len(is.discs), err)
		}

		return
	}

	if len(sel) > 0 {
		_, ds, _ := splitSD(pres)
		if strings.Join(ds, " ") != strings.Join(sel, " ") {
			r.Violate("wrong-disclosures", how, "the presentation carries %v, selected were %v", ds, sel)
		}
	}

	w.verify(is, pres, sel, how)
}

func (w *sdWorld) registryFailed(from int) bool {
	res := w.reg.Window(from)

	return len(res) > 0 && res[len(res)-1].Version == nil
}

// verify runs the verifier on a presentation of genuine parts and compares with the reference.
func (w *sdWorld) verify(is *sdIssued, pres string, sel []string, how string) {
	r := w.r
	want, refErr := refProcess(is.payload, sel, is.alg)
	from := len(w.reg.Log)

	var (
		out map[string]any
		err error
	)

	if p := core.Do(func() {
		out, err = verifier.Parse(pres, verifier.WithSignatureVerifier(w.checker), verifier.WithIssuerSigningAlgorithms(allAlgs))
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "verifier.Parse panicked: %s\n%s", p, pres)

		return
	}

	r.Eval("present v5=%v %s/%d accepted=%v ref=%v", is.v5, how, min(len(sel), 3), err == nil, refErr == nil)

	switch {
	case err != nil && refErr == nil:
		if !w.registryFailed(from) {
			r.Violate("false-reject", how, "the verifier refused a genuine presentation: %v\npayload %s\ndisclosures %s", err, world.Enc(is.payload), deepText(nil, sel))
		}
	case err == nil && refErr != nil:
		r.Violate("accepted-bad", how, "the verifier accepted a presentation that must be refused (%v)\npayload %s\ndisclosures %s", refErr, world.Enc(is.payload), deepText(nil, sel))
	case err == nil:
		if !world.Same(normClaims(rejson(out)), normClaims(want)) {
			r.Violate("wrong-claims", how, "the verifier reports wrong claims:\ngot  %s\nwant %s\ndisclosures %s", world.Enc(out), world.Enc(want), deepText(nil, sel))
		}

		all := string(world.Enc(out))
		shown := markersIn(is.tree, all)
		given := markersIn(is.tree, deepText(world.Enc(is.payload), sel))

		for _, l := range is.tree.leaves {
			if shown[l.marker] && !given[l.marker] {
				r.Violate("undisclosed-claim", how, "the verifier shows %s which was not disclosed", l.path)
			}
		}
	}
}

// issueVC makes an SD-JWT from a credential.
func (w *sdWorld) issueVC() *sdIssued {
	r := w.r
	w.seq++
	by := w.issuers[r.Choose(len(w.issuers), "issuer")]
	t := genClaims(r, fmt.Sprintf("t%d", w.seq))
	sub := world.CloneJ(t.claims)
	sub["id"] = "did:sim:holder"

	vc := world.GenVC(r, world.VCSpec{Issuer: by.DID, Subject: "did:sim:holder", V2: r.Chance(1, 2, "v2"), Flat: true, Seq: w.seq})
	vc["credentialSubject"] = sub
	v5 := r.Chance(1, 3, "v5")
	is := &sdIssued{by: by, tree: t, vc: true, alg: crypto.SHA256, v5: v5, subject: sub}

	var opts []verifiable.MakeSDJWTOption

	if v5 {
		opts = append(opts, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5))

		if r.Chance(1, 2, "recursive") {
			opts = append(opts, verifiable.MakeSDJWTWithRecursiveClaimsObjects(pickPaths(r, t.objs, 1, 2)))
		}

		if r.Chance(1, 2, "always-include") {
			opts = append(opts, verifiable.MakeSDJWTWithAlwaysIncludeObjects(pickPaths(r, append(append([]string{}, t.objs...), t.arrs...), 1, 3)))
		}
	}

	if r.Chance(1, 2, "other-hash") {
		is.alg = hashOf(r)
		opts = append(opts, verifiable.MakeSDJWTWithHash(is.alg))
	}

	var nonSD []string

	if r.Chance(1, 2, "non-sd") {
		nonSD = pickPaths(r, t.leafPaths(), 1, 5)
		opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(append([]string{}, nonSD...)))
	}

	is.visible = func(l leaf) bool { return hasAny(nonSD, l.under) }

	cred, err := verifiable.ParseCredential(world.Enc(vc), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(),
		verifiable.WithDisabledRelatedResourceCheck())
	if err != nil {
		r.Violate("cannot-issue", "parse", "a valid credential was refused: %v", err)

		return nil
	}

	before := world.Enc(cred.ToRawJSON())
	s := &world.Signer{K: by.Cur[0].Key, R: r}

	if r.Chance(1, 8, "signer-faults") {
		s.Fail = 500
	}

	var combined string

	if p := core.Do(func() { combined, err = cred.MakeSDJWT(joseSigner{s}, by.KID(0), opts...) }); p != "" {
		r.Violate("panic", core.PanicSite(p), "MakeSDJWT panicked: %s\n%s", p, world.Enc(vc))

		return nil
	}

	if !world.Same(cred.ToRawJSON(), world.Dec(before)) {
		r.Violate("input-changed", "MakeSDJWT", "MakeSDJWT changed the credential from %s to %s", before, world.Enc(cred.ToRawJSON()))
	}

	if err != nil {
		if s.Failures == 0 {
			r.Violate("cannot-issue", "vc", "a valid credential could not be made an SD-JWT: %v\n%s", err, world.Enc(vc))
		}

		return nil
	}

	if s.Failures > 0 {
		r.Violate("issued-despite-fault", "vc", "an SD-JWT was made although its signer failed")
	}

	is.combined = combined
	is.jwt, is.discs, _ = splitSD(combined + "~")

	_, pay, _, ok := splitJWT(is.jwt)
	is.payload = world.Dec(pay)

	if !ok || is.payload == nil {
		r.Violate("malformed", "vc", "the issued SD-JWT does not decode: %s", combined)

		return nil
	}

	r.Eval("issue vc v5=%v discs=%d", v5, min(len(is.discs), 4))
	w.checkIssued(is, pay, false)

	full, err := refProcess(is.payload, is.discs, is.alg)
	if err != nil {
		r.Violate("malformed", "vc-ref", "the issued SD-JWT is malformed: %v\npayload %s\ndisclosures %s", err, pay, deepText(nil, is.discs))

		return nil
	}

	if !world.Same(normClaims(subjectOf(full)), normClaims(rejson(sub))) {
		r.Violate("lost-claims", "vc", "the issued SD-JWT does not carry the credential's subject:\ngot  %s\nwant %s", world.Enc(full), world.Enc(sub))
	}

	return is
}

func stripSD(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := world.J{}

		for k, e := range x {
			if k != "_sd" {
				o[k] = stripSD(e)
			}
		}

		return o
	case []any:
		o := []any{}

		for _, e := range x {
			if m, ok := e.(map[string]any); ok && len(m) == 1 && m["..."] != nil {
				continue
			}

			o = append(o, stripSD(e))
		}

		return o
	}

	return v
}

func subjectOf(p world.J) any {
	if vc, ok := p["vc"].(map[string]any); ok {
		return vc["credentialSubject"]
	}

	return p["credentialSubject"]
}

// presentVC presents a credential through the verifiable package.
func (w *sdWorld) presentVC(is *sdIssued) {
	r := w.r
	from := len(w.reg.Log)

	var (
		cred *verifiable.Credential
		err  error
	)

	parse := func(s string) bool {
		if p := core.Do(func() {
			cred, err = verifiable.ParseCredential([]byte(s), verifiable.WithJWTProofChecker(w.checker), verifiable.WithDisabledRelatedResourceCheck())
		}); p != "" {
			r.Violate("panic", core.PanicSite(p), "parsing an SD-JWT credential panicked: %s\n%s", p, s)

			return false
		}

		if err != nil {
			if !w.registryFailed(from) {
				r.Violate("false-reject", "vc", "a genuine SD-JWT credential was refused: %v\n%s", err, s)
			}

			return false
		}

		return true
	}

	if !parse(is.combined) {
		return
	}

	if len(is.discs) == 0 {
		return // nothing to select: an ordinary JWT credential
	}

	names := map[string]bool{}

	for _, raw := range is.discs {
		if d, e := decodeDisc(raw, is.alg); e == nil && d.name != "" {
			names[d.name] = true
		}
	}

	var list []string
	for n := range names {
		list = append(list, n)
	}

	sort.Strings(list)
	chosen := pickPaths(r, list, 1, 2)

	var (
		pres string
		sel  []string
		opt  verifiable.MarshalDisclosureOption
		how  string
	)

	inChosen := map[string]bool{}
	for _, n := range chosen {
		inChosen[n] = true
	}

	for _, raw := range is.discs {
		if d, e := decodeDisc(raw, is.alg); e == nil && inChosen[d.name] {
			sel = append(sel, raw)
		}
	}

	switch r.Choose(4, "vc-selection") {
	case 0:
		opt, how, sel = verifiable.DiscloseAll(), "all", is.discs
	case 1:
		opt, how = verifiable.DiscloseGivenRequired(append([]string{}, chosen...)), "required"
	case 2:
		opt, how = verifiable.DiscloseGivenIfAvailable(append(append([]string{}, chosen...), "no-such-claim")), "if available"
	case 3:
		opt, how = verifiable.DiscloseGivenRequired(append(append([]string{}, chosen...), "no-such-claim")), "missing"
	}

	if p := core.Do(func() { pres, err = cred.MarshalWithDisclosure(opt) }); p != "" {
		r.Violate("panic", core.PanicSite(p), "MarshalWithDisclosure panicked: %s", p)

		return
	}

	r.Eval("vc present %s v5=%v ok=%v", how, is.v5, err == nil)

	if how == "missing" {
		if err == nil {
			r.Violate("missing-required", "vc", "MarshalWithDisclosure made a presentation without a required disclosure")
		}

		return
	}

	if err != nil {
		r.Violate("cannot-present", how, "a genuine SD-JWT credential could not be presented (%s %v): %v", how, chosen, err)

		return
	}

	ptok, pdiscs, _ := splitSD(pres + "~")
	if strings.HasSuffix(pres, "~") {
		ptok, pdiscs, _ = splitSD(pres)
	}

	a, b := append([]string{}, pdiscs...), append([]string{}, sel...)
	sort.Strings(a)
	sort.Strings(b)

	if ptok != is.jwt || strings.Join(a, " ") != strings.Join(b, " ") {
		r.Violate("wrong-disclosures", "vc "+how, "the presentation carries %s, wanted %s (%s %v)", deepText(nil, a), deepText(nil, b), how, chosen)

		return
	}

	// a display of some claims shows only those
	w.display(is, cred, chosen)

	want, refErr := refProcess(is.payload, pdiscs, is.alg)
	from = len(w.reg.Log)

	if p := core.Do(func() {
		cred, err = verifiable.ParseCredential([]byte(pres), verifiable.WithJWTProofChecker(w.checker), verifiable.WithDisabledRelatedResourceCheck())
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "parsing a presented SD-JWT credential panicked: %s\n%s", p, pres)

		return
	}

	switch {
	case err != nil && refErr == nil && !w.registryFailed(from):
		r.Violate("false-reject", "vc "+how, "a genuine presentation was refused: %v\n%s", err, pres)
	case err == nil && refErr != nil:
		r.Violate("accepted-bad", "vc "+how, "a presentation that must be refused (%v) was accepted: %s", refErr, pres)
	case err == nil:
		var (
			d    *verifiable.Credential
			derr error
		)

		if p := core.Do(func() { d, derr = cred.CreateDisplayCredential(verifiable.DisplayAllDisclosures()) }); p != "" {
			r.Violate("panic", core.PanicSite(p), "CreateDisplayCredential panicked: %s", p)

			return
		}

		if derr != nil {
			r.Violate("no-display", how, "a verified SD-JWT credential cannot be displayed: %v\n%s", derr, pres)

			return
		}

		got := rejson(subjectOf(d.ToRawJSON()))
		if len(pdiscs) == 0 {
			// without a separator it is an ordinary JWT credential, shown as it is
			got = stripSD(got)
		}

		if !world.Same(normClaims(got), normClaims(subjectOf(want))) {
			r.Violate("wrong-claims", "vc display", "the displayed subject is\n%s\nwant\n%s", world.Enc(got), world.Enc(subjectOf(want)))
		}
	}
}

func (w *sdWorld) display(is *sdIssued, cred *verifiable.Credential, names []string) {
	r := w.r

	var (
		d   *verifiable.Credential
		err error
	)

	raw := world.Enc(cred.ToRawJSON())

	if p := core.Do(func() {
		d, err = cred.CreateDisplayCredential(verifiable.DisplayGivenDisclosures(append([]string{}, names...)))
	}); p != "" {
		r.Violate("panic", core.PanicSite(p), "CreateDisplayCredential panicked: %s", p)

		return
	}

	if err != nil {
		r.Violate("no-display", "given", "a genuine SD-JWT credential cannot be displayed with %v: %v", names, err)

		return
	}

	if !world.Same(cred.ToRawJSON(), world.Dec(raw)) {
		r.Violate("input-changed", "display", "CreateDisplayCredential changed the credential")
	}

	var sel []string

	for _, x := range is.discs {
		if q, e := decodeDisc(x, is.alg); e == nil {
			for _, n := range names {
				if q.name == n {
					sel = append(sel, x)
				}
			}
		}
	}

	shown := markersIn(is.tree, string(world.Enc(d.ToRawJSON())))
	given := markersIn(is.tree, deepText(world.Enc(is.payload), sel))

	for _, l := range is.tree.leaves {
		if shown[l.marker] && !given[l.marker] {
			r.Violate("undisclosed-claim", "display", "a display of only %v shows %s, which none of their disclosures contains: %s", names, l.path, world.Enc(d.ToRawJSON()))
		}
	}

	r.Eval("display given names=%d", min(len(names), 3))
}
