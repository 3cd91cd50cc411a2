package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C16", Title: "A wallet answers a presentation definition with exactly what it asks for", Run: runWallet, Race: true,
		Rule:    "one answer of one wallet task to one definition, judged against an independent evaluation of the definition over the credentials and of the issuer's disclosures",
		Measure: "call x definition version x requirement shape x credential forms used x limited disclosure x loader fault x verdict",
		Real:    []string{"presexch (definition, requirement logic, limited disclosure)", "verifiable (SD-JWT display, presentations, JWT and JSON-LD forms)", "sdjwt/common", "util/json"},
		Stub:    []string{"JSON-LD context server", "DID registry", "remote signer", "goroutine scheduling", "clock"},
	})
}

func runWallet(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := newPEWorld(r)

	for i, n := 0, r.N(1, 5, "credentials"); i < n && !r.Failed(); i++ {
		w.issue()
	}

	if r.Failed() || len(w.creds) == 0 {
		return
	}

	faults := r.Chance(1, 4, "loader-faults")

	var shared []*peDef

	for i, n := 0, r.N(1, 2, "definitions"); i < n; i++ {
		shared = append(shared, w.genDef(false))
	}

	// wallets of one process may well use the same options
	var opts []verifiable.CredentialOpt
	if !faults || r.Chance(1, 2, "shared-options") {
		opts = append(make([]verifiable.CredentialOpt, 0, 8), verifiable.WithJSONLDDocumentLoader(w.loader), verifiable.WithDisabledProofCheck(),
			verifiable.WithDisabledRelatedResourceCheck())
	}

	var tasks []func()

	for i, n := 0, r.N(1, 3, "wallets"); i < n; i++ {
		tasks = append(tasks, func() {
			l := world.NewLoader(r)
			if faults {
				l.Fail, l.Slow = 40, 20
			}

			for op := 0; op < 2 && !r.Failed(); op++ {
				d := shared[r.Choose(len(shared), "def")]
				if r.Chance(1, 3, "own-definition") {
					d = w.genDef(false)
				}

				l.Failed = 0

				w.answer(d, l, opts)
				r.Sleep(time.Duration(r.Choose(3, "pause")) * time.Second)
			}
		})
	}

	r.Parallel("wallet", tasks...)

	if !r.Failed() {
		w.unchanged("afterwards")
	}
}

// unchanged says that the wallet's credentials are what they were.
func (w *peWorld) unchanged(when string) {
	for _, c := range w.creds {
		if s := vcString(c.vc); s != c.snap {
			w.r.Violate("credential-changed", c.form, "%s, credential %d of the wallet is no longer what it was:\nwas %s\nis  %s", when, c.n, c.snap, s)
		}
	}
}

// forms names the forms of credentials.
func formsOf(cs []*peCred) string {
	m := map[string]bool{}
	for _, c := range cs {
		m[c.form] = true
	}

	var o []string
	for k := range m {
		o = append(o, k)
	}

	sort.Strings(o)

	return strings.Join(o, "+")
}

// sub takes some of the wallet's credentials, in some order.
func (w *peWorld) sub() []*peCred {
	r := w.r
	o := append([]*peCred{}, w.creds...)

	if r.Chance(1, 3, "some") {
		o = nil

		for _, c := range w.creds {
			if r.Chance(2, 3, "take") {
				o = append(o, c)
			}
		}
	}

	if r.Chance(1, 3, "order") {
		for i := len(o) - 1; i > 0; i-- {
			j := r.Choose(i+1, "swap")
			o[i], o[j] = o[j], o[i]
		}
	}

	return o
}

func (w *peWorld) answer(d *peDef, l *world.Loader, credOpts []verifiable.CredentialOpt) {
	r := w.r
	cs := w.sub()

	var vcs []*verifiable.Credential
	for _, c := range cs {
		vcs = append(vcs, c.vc)
	}

	if credOpts == nil {
		credOpts = []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(l), verifiable.WithDisabledProofCheck(),
			verifiable.WithDisabledRelatedResourceCheck()}
	}

	opts := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(credOpts...)}
	deflt := presexch.FormatLDPVP

	if r.Chance(1, 3, "jwt-vp") {
		deflt = presexch.FormatJWTVP
		opts = append(opts, presexch.WithDefaultPresentationFormat(deflt))
	}

	call := r.Choose(4, "call")
	name := []string{"CreateVP", "CreateVP", "CreateVPArray", "MatchSubmissionRequirement"}[call]

	var (
		vp   *verifiable.Presentation
		vps  []*verifiable.Presentation
		sm   *presexch.PresentationSubmission
		reqs []*presexch.MatchedSubmissionRequirement
		err  error
		sd   bool
	)

	before := string(world.Enc(asAny(d.pd)))
	p := core.Do(func() {
		switch call {
		case 0, 1:
			vp, err = d.pd.CreateVP(vcs, l, opts...)
		case 2:
			vps, sm, err = d.pd.CreateVPArray(vcs, l, opts...)
		case 3:
			if sd = r.Chance(1, 2, "apply-sd"); sd {
				opts = append(opts, presexch.WithSelectiveDisclosureApply())
			}

			reqs, err = d.pd.MatchSubmissionRequirement(vcs, l, opts...)
		}
	})

	what := fmt.Sprintf("%s of %s over %s", name, world.Enc(d.json), nums(cs))
	fault := l.Failed > 0

	if p != "" {
		r.Violate("panic", core.PanicSite(p), "%s panicked: %s", what, p)

		return
	}

	if string(world.Enc(asAny(d.pd))) != before {
		r.Violate("definition-changed", name, "%s changed the definition", what)

		return
	}

	if err == nil && vp != nil {
		s, ok := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
		if !ok {
			r.Violate("no-submission", name, "%s: the presentation has no submission", what)

			return
		}

		sm, vps = s, []*verifiable.Presentation{vp}
	}

	verdict := "ok"

	switch {
	case fault && err != nil:
		verdict = "fault"
	case call == 3:
		if err != nil {
			r.Violate("refused", name, "%s failed: %v", what, err)

			return
		}

		w.checkMatched(d, cs, reqs, sd, what)
	case errors.Is(err, presexch.ErrNoCredentials):
		verdict = "none"
		avail := map[string]bool{}

		for _, x := range d.descs() {
			if len(d.usable(x, cs, true)) > 0 {
				avail[str(x["id"])] = true
			}
		}

		if d.solvable(avail) {
			r.Violate("not-found", "none", "%s found no credentials, although those that answer %v satisfy the definition", what, avail)
		}
	case err != nil:
		r.Violate("refused", errKey(err), "%s failed: %v", what, err)
	default:
		w.checkSubmission(d, cs, vps, sm, call == 2, deflt, what)
	}

	if !r.Failed() {
		w.unchanged("after " + what)
	}

	lim := false
	for _, x := range d.descs() {
		lim = lim || limits(x)
	}

	_, rq := d.json["submission_requirements"]
	r.Eval("%s v1=%v req=%v %s limit=%v fault=%v %s n=%d", name, d.v1, rq, formsOf(cs), lim, fault, verdict, len(d.descs()))
}

func asAny(v any) any { return world.Dec(mustJSON(v)) }

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	return b
}

func nums(cs []*peCred) string {
	var o []string
	for _, c := range cs {
		o = append(o, fmt.Sprintf("%d(%s)", c.n, c.form))
	}

	return "[" + strings.Join(o, " ") + "]"
}

// errKey is an error's text without what varies.
func errKey(err error) string {
	s := err.Error()
	if len(s) > 40 {
		s = s[:40]
	}

	return s
}

// checkMatched judges the credentials found for each descriptor.
func (w *peWorld) checkMatched(d *peDef, cs []*peCred, reqs []*presexch.MatchedSubmissionRequirement, sd bool, what string) {
	r := w.r
	seen := map[string]bool{}

	var walk func(q *presexch.MatchedSubmissionRequirement)

	walk = func(q *presexch.MatchedSubmissionRequirement) {
		for _, x := range q.Descriptors {
			desc := d.desc(x.ID)
			if desc == nil {
				r.Violate("unknown-descriptor", "match", "%s matched descriptor %q, which there is not", what, x.ID)

				return
			}

			seen[x.ID] = true
			left := d.usable(desc, cs, sd)

			var got []any

			for _, v := range x.MatchedVCs {
				got = append(got, vcJSON(v))
			}

			w.pair(desc, left, got, sd, fmt.Sprintf("%s, descriptor %s", what, x.ID))
		}

		for _, n := range q.Nested {
			walk(n)
		}
	}

	for _, q := range reqs {
		walk(q)
	}

	in := d.inReq()
	for id := range in {
		if !seen[id] && !r.Failed() {
			r.Violate("descriptor-missing", "match", "%s says nothing about descriptor %s", what, id)
		}
	}
}

// vcJSON is what a presentation would contain for a credential.
func vcJSON(c *verifiable.Credential) any {
	if c.IsJWT() {
		s, err := c.ToJWTString()
		if err != nil {
			return nil
		}

		return s
	}

	return map[string]any(world.Dec(mustJSON(c)))
}

// pair checks that the credentials given for a descriptor are the expected ones, each disclosed as asked.
func (w *peWorld) pair(desc world.J, want []*peCred, got []any, apply bool, what string) {
	r := w.r
	why := make([][]string, len(got))

	for i, g := range got {
		why[i] = make([]string, len(want))
		for j, c := range want {
			why[i][j] = w.fits(desc, c, g, apply)
		}
	}

	used := make([]bool, len(want))

	var match func(i int) bool

	match = func(i int) bool {
		if i == len(got) {
			return true
		}

		for j := range want {
			if !used[j] && why[i][j] == "" {
				used[j] = true

				if match(i + 1) {
					return true
				}

				used[j] = false
			}
		}

		return false
	}

	if len(got) == len(want) && match(0) {
		return
	}

	// say what is wrong
	key, text := "set", fmt.Sprintf("want %s, got %d", nums(want), len(got))

	for i, g := range got {
		fit := false
		reason := ""

		for j := range want {
			fit = fit || why[i][j] == ""

			if why[i][j] != "" && why[i][j] != "another credential" {
				reason = fmt.Sprintf("credential %d %s", want[j].n, why[i][j])
			}
		}

		if !fit {
			key = "none-fits"
			if reason != "" {
				key = "disclosure"
			}

			text += fmt.Sprintf("\n[%d] fits none (%s): %s\n   claims %s", i, reason, world.Enc(g), peClaims(g))
		}
	}

	r.Violate("wrong-credentials", key, "%s: %s\ndescriptor %s", what, text, world.Enc(desc))
}

// peClaims shows what is in a token.
func peClaims(g any) string {
	s, ok := g.(string)
	if !ok {
		return ""
	}

	_, p, _, _ := splitJWT(strings.SplitN(s, "~", 2)[0])
	o := string(p)

	if strings.Contains(s, "~") {
		_, ds, _ := splitSD(strings.TrimSuffix(s, "~") + "~")
		for _, d := range ds {
			o += "\n      " + string(b64(d))
		}
	}

	return o
}

// fits says why what was given for a descriptor is not the credential, disclosed as asked.
func (w *peWorld) fits(desc world.J, c *peCred, got any, apply bool) string {
	if o, ok := got.(map[string]any); ok && str(firstOf(o["type"])) == "EnvelopedVerifiableCredential" {
		_, tok, ok := strings.Cut(str(o["id"]), ",")
		if !ok {
			return "is enveloped without a token"
		}

		got = tok
	}

	pred := predicateOf(desc)

	if c.form == "sd" {
		s, ok := got.(string)
		if !ok || strings.SplitN(s, "~", 2)[0] != c.tok {
			return "another credential"
		}

		var ds []string
		if strings.Contains(s, "~") {
			_, ds, _ = splitSD(strings.TrimSuffix(s, "~") + "~")
		}

		if !apply {
			if len(ds) != len(c.discs) {
				return "has not kept its disclosures"
			}

			return ""
		}

		return c.checkSD(desc, ds)
	}

	if !apply || !limits(desc) && !pred {
		if c.form == "jwt" {
			if got != any(c.tok) {
				return "another credential"
			}

			return ""
		}

		if o, ok := got.(map[string]any); !ok || !world.Same(o, c.doc) {
			return "another credential"
		}

		return ""
	}

	// a new credential with part of the claims
	var doc world.J

	switch x := got.(type) {
	case string:
		h, p, sg, ok := splitJWT(x)
		if !ok || c.form != "jwt" {
			return "another credential"
		}

		if len(sg) != 0 || h["alg"] != "none" {
			return "another credential"
		}

		doc = world.CloneJ(rootOf(world.Dec(p)))

		for _, k := range []string{"iss", "sub", "jti", "nbf", "exp", "iat"} {
			delete(doc, k)
		}
	case map[string]any:
		if c.form != "ldp" {
			return "another credential"
		}

		doc = world.CloneJ(x)
	}

	return c.checkLimited(desc, doc)
}

func firstOf(v any) any {
	if a, ok := v.([]any); ok && len(a) == 1 {
		return a[0]
	}

	return v
}

// leafAt spells a place as leavesOf does.
func leafAt(at []string) string {
	o := ""

	for _, s := range at {
		if s != "" && strings.Trim(s, "0123456789") == "" {
			s = "[]"
		}

		o += "/" + s
	}

	return o
}

// checkLimited judges a credential made of part of another's claims.
func (c *peCred) checkLimited(desc, doc world.J) string {
	var must, may, pmust, pmay [][]string

	src := world.CloneJ(c.doc)
	delete(src, "proof")

	out := world.CloneJ(doc)
	delete(out, "proof")

	for _, f := range fieldsOf(desc) {
		_, first, all := fieldHits(f, c.doc, c.form != "ldp")

		for _, h := range first {
			if f["predicate"] == "required" {
				pmust = append(pmust, h.at)
			} else {
				must = append(must, h.at)
			}
		}

		for _, h := range all {
			if f["predicate"] == "required" {
				pmay = append(pmay, h.at)
			} else {
				may = append(may, h.at)
			}
		}
	}

	touches := func(at []string, of [][]string) bool {
		for _, o := range of {
			if within(at, o) || within(o, at) {
				return true
			}
		}

		return false
	}

	base := [][]string{{"id"}, {"type"}, {"@context"}, {"issuer"}, {"issuanceDate"}, {"credentialSubject", "id"},
		{"credentialSubject", "0", "id"}, {"credentialSubject", "1", "id"}}
	if !limits(desc) {
		base = [][]string{nil}
	}

	// what may be there
	open, _ := prune(src, nil, append(append([][]string{}, base...), may...), nil)
	if !limits(desc) {
		open = withoutAt(src, nil, pmay, may)
	}

	allowed := leavesOf(open, "", map[string]int{})
	for _, at := range pmay {
		allowed[leafAt(at)+"=true"]++
	}

	have := leavesOf(out, "", map[string]int{})

	for l, n := range have {
		if n > allowed[l] {
			if allowed[l] == 0 && leavesOf(src, "", map[string]int{})[l] == 0 {
				return "another credential"
			}

			return fmt.Sprintf("discloses %s, which is not asked for", l)
		}
	}

	// what must be there
	need := map[string]int{}

	for _, at := range must {
		if touches(at, pmay) {
			continue
		}

		v, _ := prune(src, nil, [][]string{at}, nil)
		for l := range leavesOf(v, "", map[string]int{}) {
			need[l] = 1
		}
	}

	for _, at := range pmust {
		if !touches(at, may) && !crosses(at, pmay) {
			need[leafAt(at)+"=true"] = 1
		}
	}

	if !limits(desc) {
		for l := range leavesOf(withoutAt(src, nil, pmay, nil), "", map[string]int{}) {
			need[l] = 1
		}
	}

	for l := range need {
		if have[l] == 0 {
			return "does not disclose " + l
		}
	}

	return ""
}

// crosses says that another of the places contains, or is contained in, this one.
func crosses(at []string, all [][]string) bool {
	for _, o := range all {
		if len(o) != len(at) && (within(at, o) || within(o, at)) {
			return true
		}
	}

	return false
}

// withoutAt leaves out places, except those in but.
func withoutAt(v any, at []string, drop, but [][]string) any {
	for _, k := range but {
		if within(at, k) {
			return v
		}
	}

	for _, k := range drop {
		if within(at, k) {
			inside := false
			for _, b := range but {
				inside = inside || within(b, at)
			}

			if !inside {
				return nil
			}
		}
	}

	switch x := v.(type) {
	case map[string]any:
		o := world.J{}

		for k, e := range x {
			if n := withoutAt(e, append(append([]string{}, at...), k), drop, but); n != nil {
				o[k] = n
			}
		}

		return o
	case []any:
		o := []any{}

		for i, e := range x {
			if n := withoutAt(e, append(append([]string{}, at...), fmt.Sprint(i)), drop, but); n != nil {
				o = append(o, n)
			}
		}

		return o
	}

	for _, k := range drop {
		if within(at, k) {
			return nil
		}
	}

	return v
}

// checkSubmission judges presentations and the submission that describes them.
func (w *peWorld) checkSubmission(d *peDef, cs []*peCred, vps []*verifiable.Presentation, sm *presexch.PresentationSubmission, array bool, deflt, what string) {
	r := w.r
	j := asAny(sm).(world.J)

	if j["definition_id"] != d.json["id"] {
		r.Violate("submission", "definition", "%s: the submission names definition %v", what, j["definition_id"])

		return
	}

	var roots []any

	for _, vp := range vps {
		b, err := vp.MarshalJSON()
		if err != nil {
			r.Violate("refused", "marshal", "%s: the presentation cannot be serialised: %v", what, err)

			return
		}

		roots = append(roots, map[string]any(world.Dec(b)))
	}

	set := map[string]bool{}
	got := map[string][]any{}
	used := map[string]bool{}
	at := map[string]bool{}

	ms, _ := j["descriptor_map"].([]any)
	for _, x := range ms {
		m := x.(world.J)
		id := str(m["id"])
		n, _ := m["path_nested"].(world.J)

		if d.desc(id) == nil || str(n["id"]) != id {
			r.Violate("submission", "descriptor", "%s: the submission has an entry for descriptor %q: %s", what, id, world.Enc(m))

			return
		}

		v, where, ok := resolve(roots, str(m["path"]), str(n["path"]), array)
		if !ok {
			r.Violate("submission", "path", "%s: nothing is where the submission points: %s in %s", what, world.Enc(m), world.Enc(roots))

			return
		}

		f := str(n["format"])
		_, isTok := v.(string)

		if o, ok := v.(map[string]any); ok && str(firstOf(o["type"])) == "EnvelopedVerifiableCredential" {
			isTok = true
		}

		if isTok != (f == presexch.FormatJWTVC) {
			r.Violate("submission", "format", "%s: the submission says %s of %s", what, f, world.Enc(v))

			return
		}

		if at[id+where] {
			r.Violate("submission", "twice", "%s: two entries for descriptor %s point to %s", what, id, where)

			return
		}

		at[id+where] = true
		set[id] = true
		used[where] = true
		got[id] = append(got[id], v)
	}

	if !d.satisfied(set) {
		r.Violate("requirements", "unsatisfied", "%s: the descriptors answered, %v, do not meet the requirements", what, set)

		return
	}

	for _, id := range sortedKeys(anyKeys(got)) {
		if r.Failed() {
			return
		}

		w.pair(d.desc(id), d.usable(d.desc(id), cs, true), got[id], true, fmt.Sprintf("%s, descriptor %s", what, id))
	}

	// nothing but what the submission points to
	for i, x := range roots {
		l, _ := x.(map[string]any)["verifiableCredential"].([]any)

		for k := range l {
			if where := fmt.Sprintf("%d/%d", i, k); !used[where] && !r.Failed() {
				r.Violate("extra-credential", "", "%s: no entry of the submission points to %s: %s", what, where, world.Enc(l[k]))
			}
		}
	}
}

func anyKeys(m map[string][]any) map[string]any {
	o := map[string]any{}
	for k := range m {
		o[k] = nil
	}

	return o
}

// resolve follows the two paths of a submission entry.
func resolve(roots []any, outer, inner string, array bool) (v any, where string, ok bool) {
	i, k := 0, 0

	if array {
		if n, _ := fmt.Sscanf(outer, "$[%d]", &i); n != 1 || fmt.Sprintf("$[%d]", i) != outer {
			return nil, "", false
		}
	} else if outer != "$" {
		return nil, "", false
	}

	in := strings.Replace(inner, "$.vp.", "$.", 1)
	if n, _ := fmt.Sscanf(in, "$.verifiableCredential[%d]", &k); n != 1 || fmt.Sprintf("$.verifiableCredential[%d]", k) != in || i >= len(roots) {
		return nil, "", false
	}

	l, _ := roots[i].(map[string]any)["verifiableCredential"].([]any)
	if k >= len(l) {
		return nil, "", false
	}

	return l[k], fmt.Sprintf("%d/%d", i, k), true
}
