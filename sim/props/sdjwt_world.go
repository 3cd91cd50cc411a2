package props

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	josejson "github.com/go-jose/go-jose/v3/json"
	"github.com/trustbloc/kms-go/doc/jose"

	afgjwt "github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/vermethod"

	"vcsim/core"
	"vcsim/world"
)

// joseSigner signs tokens for the code under test through the simulated signing service.
type joseSigner struct {
	s *world.Signer
}

func (j joseSigner) Sign(b []byte) ([]byte, error) { return j.s.Sign(b) }
func (j joseSigner) Headers() jose.Headers         { return jose.Headers{"alg": j.s.K.Alg} }

// allAlgs is every signing algorithm the simulated keys use.
var allAlgs = []string{"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256"}

// leaf is one value of a claim tree.
type leaf struct {
	path   string // as the issuer's options spell it
	key    string // the member's name, "" for an array element
	marker string // unique text; the value is, or contains, it
	array  bool   // an element of an array, or inside one
	under  []string
}

// claimTree is a generated set of claims in which every value can be recognised.
type claimTree struct {
	claims world.J
	leaves []leaf
	objs   []string // paths of objects
	arrs   []string // paths of arrays
	elems  []string // paths of array elements
	names  []string // every member name used
	n      int
	tag    string
}

func (t *claimTree) mark() string {
	t.n++

	return fmt.Sprintf("mk-%s-%d-", t.tag, t.n)
}

func (t *claimTree) gen(r *core.Run, path string, under []string, depth int) world.J {
	o := world.J{}

	n := r.N(1, 4, "members")
	if r.Chance(1, 12, "wide-object") {
		n += r.N(2, 6, "more-members")
	}

	for i := 0; i < n; i++ {
		t.n++
		k := fmt.Sprintf("key%s%d_", t.tag, t.n)

		// the same name as a claim elsewhere in the tree
		if len(t.names) > 0 && r.Chance(1, 6, "same-name") {
			k = t.names[r.Choose(len(t.names), "name")]
			if _, taken := o[k]; taken {
				continue
			}
		}

		t.names = append(t.names, k)
		p := k

		if path != "" {
			p = path + "." + k
		}

		up := append(append([]string{}, under...), p)

		switch c := r.Choose(8, "member"); {
		case c < 3 || depth >= 3 && c < 7:
			m := t.mark()
			t.leaves = append(t.leaves, leaf{p, k, m, false, up})
			o[k] = m
		case c < 5:
			t.objs = append(t.objs, p)
			o[k] = t.gen(r, p, up, depth+1)
		case c < 7:
			t.arrs = append(t.arrs, p)

			var a []any

			m := r.N(1, 3, "elements")
			if r.Chance(1, 12, "wide-array") {
				m += r.N(2, 6, "more-elements")
			}

			for j := 0; j < m; j++ {
				ep := fmt.Sprintf("%s[%d]", p, j)
				mk := t.mark()
				t.elems = append(t.elems, ep)
				t.leaves = append(t.leaves, leaf{ep, "", mk, true, append(append([]string{}, up...), ep)})

				if r.Chance(1, 3, "object-element") {
					a = append(a, world.J{"in": mk})
				} else {
					a = append(a, mk)
				}
			}

			o[k] = a
		default:
			switch r.Choose(5, "odd") {
			case 0:
				o[k] = float64(r.Choose(1000, "num"))
			case 1:
				o[k] = r.Chance(1, 2, "bool")
			case 2:
				o[k] = ""
			case 3:
				o[k] = world.J{}
			case 4:
				o[k] = nil
			}
		}
	}

	return o
}

// uses counts the members that have a name.
func (t *claimTree) uses(k string) int {
	n := 0

	for _, x := range t.names {
		if x == k {
			n++
		}
	}

	return n
}

func genClaims(r *core.Run, tag string) *claimTree {
	t := &claimTree{tag: tag}
	t.claims = t.gen(r, "", nil, 0)

	return t
}

// pickPaths chooses a few of the paths.
func pickPaths(r *core.Run, from []string, num, den int) []string {
	var o []string

	for _, p := range from {
		if r.Chance(num, den, "pick") {
			o = append(o, p)
		}
	}

	return o
}

func (t *claimTree) leafPaths() []string {
	var o []string
	for _, l := range t.leaves {
		o = append(o, l.path)
	}

	return o
}

// sdDisc is a decoded disclosure.
type sdDisc struct {
	raw    string
	digest string
	salt   string
	name   string
	value  any
	n      int
}

func sdHash(alg crypto.Hash, s string) string {
	h := alg.New()
	h.Write([]byte(s))

	return base64.RawURLEncoding.EncodeToString(h.Sum(nil))
}

func decodeDisc(raw string, alg crypto.Hash) (*sdDisc, error) {
	b, err := base64.RawURLEncoding.DecodeString(raw)
	if err != nil {
		return nil, err
	}

	var a []any
	if err = json.Unmarshal(b, &a); err != nil {
		return nil, err
	}

	if len(a) != 2 && len(a) != 3 {
		return nil, errors.New("not a disclosure")
	}

	d := &sdDisc{raw: raw, digest: sdHash(alg, raw), n: len(a), value: a[len(a)-1]}

	var ok bool
	if d.salt, ok = a[0].(string); !ok {
		return nil, errors.New("salt is no string")
	}

	if len(a) == 3 {
		if d.name, ok = a[1].(string); !ok {
			return nil, errors.New("name is no string")
		}
	}

	return d, nil
}

// sdRef processes a payload and disclosures as the SD-JWT specification says, independently of the
// code under test.
type sdRef struct {
	discs map[string]*sdDisc
	seen  map[string]bool
	used  map[string]bool
	err   error
}

func (s *sdRef) fail(f string, a ...any) {
	if s.err == nil {
		s.err = fmt.Errorf(f, a...)
	}
}

func (s *sdRef) look(digest string, n int) *sdDisc {
	if s.seen[digest] {
		s.fail("digest %s twice", digest)

		return nil
	}

	s.seen[digest] = true

	d := s.discs[digest]
	if d == nil {
		return nil
	}

	if d.n != n {
		s.fail("disclosure of the wrong kind for %s", digest)

		return nil
	}

	s.used[digest] = true

	return d
}

func (s *sdRef) walk(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := world.J{}

		if l, ok := x["_sd"]; ok {
			a, ok := l.([]any)
			if !ok && l != nil {
				s.fail("_sd is no list")
			}

			for _, e := range a {
				dg, ok := e.(string)
				if !ok {
					s.fail("digest is no string")

					continue
				}

				if d := s.look(dg, 3); d != nil {
					if _, dup := o[d.name]; dup {
						s.fail("name %s twice", d.name)
					}

					if _, dup := x[d.name]; dup {
						s.fail("name %s taken", d.name)
					}

					o[d.name] = s.walk(d.value)
				}
			}
		}

		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}

		sort.Strings(ks)

		for _, k := range ks {
			if k == "_sd" || k == "_sd_alg" {
				continue
			}

			o[k] = s.walk(x[k])
		}

		return o
	case []any:
		o := []any{}

		for _, e := range x {
			if m, ok := e.(map[string]any); ok {
				if dg, ok := m["..."]; ok && len(m) == 1 {
					q, ok := dg.(string)
					if !ok {
						s.fail("digest is no string")

						continue
					}

					if d := s.look(q, 2); d != nil {
						o = append(o, s.walk(d.value))
					}

					continue
				}
			}

			o = append(o, s.walk(e))
		}

		return o
	}

	return v
}

// refProcess gives the claims a presentation discloses, or why it must be refused.
func refProcess(payload world.J, discs []string, alg crypto.Hash) (world.J, error) {
	s := &sdRef{discs: map[string]*sdDisc{}, seen: map[string]bool{}, used: map[string]bool{}}

	for _, raw := range discs {
		d, err := decodeDisc(raw, alg)
		if err != nil {
			return nil, err
		}

		s.discs[d.digest] = d
	}

	o, _ := s.walk(payload).(world.J)

	if s.err != nil {
		return nil, s.err
	}

	for dg, d := range s.discs {
		if !s.used[dg] {
			return nil, fmt.Errorf("disclosure %s (%v) matches no digest", d.raw, d.value)
		}
	}

	return o, nil
}

// normClaims leaves out null members and empty arrays and objects, which SD-JWT processing may drop.
func normClaims(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := world.J{}

		for k, e := range x {
			n := normClaims(e)

			switch y := n.(type) {
			case nil:
				continue
			case []any:
				if len(y) == 0 {
					continue
				}
			case map[string]any:
				if len(y) == 0 {
					continue
				}
			}

			o[k] = n
		}

		return o
	case []any:
		o := []any{}
		for _, e := range x {
			o = append(o, normClaims(e))
		}

		return o
	}

	return v
}

// rejson gives a value the types encoding/json gives it. go-jose's own json.Number, which encoding/json
// does not know, is the number it stands for.
func rejson(v any) any {
	v = joseNumbers(v)
	b, err := json.Marshal(v)
	if err != nil {
		return nil
	}

	var o any
	_ = json.Unmarshal(b, &o)

	return o
}

func joseNumbers(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := world.J{}
		for k, e := range x {
			o[k] = joseNumbers(e)
		}

		return o
	case []any:
		o := make([]any, len(x))
		for i, e := range x {
			o[i] = joseNumbers(e)
		}

		return o
	case josejson.Number:
		return json.Number(x)
	}

	return v
}

type sdWorld struct {
	r       *core.Run
	reg     *world.Registry
	issuers []*world.Actor
	evil    *world.Actor
	checker afgjwt.ProofChecker
	seq     int
}

func newSDWorld(r *core.Run) *sdWorld {
	w := &sdWorld{r: r, reg: world.NewRegistry(r)}
	ks := []world.Kind{world.Ed, world.P256, world.P384, world.K256, world.RSA}

	for i := 0; i < 2; i++ {
		w.issuers = append(w.issuers, world.NewActor(r, w.reg, fmt.Sprintf("did:sim:issuer%d", i), ks[r.Choose(len(ks), "kind")]))
	}

	w.evil = world.NewActor(r, w.reg, evilDID(r, w.issuers[0].DID), world.Ed)
	w.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(w.reg))

	return w
}

// sdIssued is one issued SD-JWT.
type sdIssued struct {
	by       *world.Actor
	combined string
	jwt      string
	payload  world.J
	discs    []string
	alg      crypto.Hash
	tree     *claimTree
	v5       bool
	visible  func(l leaf) bool // declared always visible
	holder   *world.Key
	vc       bool
	exp, nbf int64 // seconds, 0: none
	typ      string
	subject  world.J
}

func hashOf(r *core.Run) crypto.Hash {
	return []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}[r.Choose(3, "hash")]
}

func hasAny(set []string, ps []string) bool {
	for _, p := range ps {
		for _, s := range set {
			if s == p {
				return true
			}
		}
	}

	return false
}

// sdIssueOpts generates the issuer's options for a tree and what they declare visible.
func sdIssueOpts(r *core.Run, t *claimTree, v5, cred bool) ([]issuer.NewOpt, func(l leaf) bool, string) {
	var opts []issuer.NewOpt

	d := ""
	structured := r.Chance(1, 2, "structured")
	opts = append(opts, issuer.WithStructuredClaims(structured))

	nonSD := []string{}
	if r.Chance(1, 2, "non-sd") {
		nonSD = append(nonSD, pickPaths(r, t.leafPaths(), 1, 5)...)
		if v5 {
			nonSD = append(nonSD, pickPaths(r, append(append([]string{}, t.objs...), t.arrs...), 1, 6)...)
		} else {
			nonSD = append(nonSD, pickPaths(r, t.arrs, 1, 6)...)
		}
	}

	if cred {
		nonSD = append(nonSD, "type", "@context")
		t.claims["type"], t.claims["@context"] = "Document", "https://www.w3.org/ns/credentials/v2"
	}

	if len(nonSD) > 0 {
		opts = append(opts, issuer.WithNonSelectivelyDisclosableClaims(nonSD))
	}

	if v5 {
		opts = append(opts, issuer.WithSDJWTVersion(common.SDJWTVersionV5))

		if r.Chance(1, 2, "recursive") {
			opts = append(opts, issuer.WithRecursiveClaimsObjects(pickPaths(r, t.objs, 1, 2)))
		}

		if r.Chance(1, 2, "always-include") {
			opts = append(opts, issuer.WithAlwaysIncludeObjects(pickPaths(r, append(append([]string{}, t.objs...), t.arrs...), 1, 3)))
		}
	}

	d = fmt.Sprintf("v5=%v structured=%v nonSD=%d", v5, structured, len(nonSD))

	visible := func(l leaf) bool { return hasAny(nonSD, l.under) }

	return opts, visible, d
}

// markersIn lists which markers of a tree occur in text.
func markersIn(t *claimTree, text string) map[string]bool {
	o := map[string]bool{}

	for _, l := range t.leaves {
		if strings.Contains(text, l.marker) {
			o[l.marker] = true
		}
	}

	return o
}

// splitSD takes a combined presentation or issuance apart, without the code under test.
func splitSD(s string) (tok string, discs []string, kb string) {
	p := strings.Split(s, "~")

	return p[0], p[1 : len(p)-1], p[len(p)-1]
}

// deepText is everything a receiver of discs and payload can read.
func deepText(payload []byte, discs []string) string {
	b := &strings.Builder{}
	b.Write(payload)

	for _, d := range discs {
		x, err := base64.RawURLEncoding.DecodeString(d)
		if err == nil {
			b.WriteByte('\n')
			b.Write(x)
		}
	}

	return b.String()
}

const (
	timeFine = iota
	timeEdge // within two seconds of a limit
	timeBad
)

// timeVerdict says where the current time lies relative to exp and nbf.
func timeVerdict(claims world.J, leeway time.Duration) int {
	v := timeFine
	now := time.Now()

	limit := func(late time.Duration) {
		switch {
		case late > 2*time.Second:
			v = timeBad
		case late > -2*time.Second && v == timeFine:
			v = timeEdge
		}
	}

	num := func(k string) (time.Time, bool) {
		switch x := claims[k].(type) {
		case float64:
			return time.Unix(int64(x), 0), true
		case json.Number:
			f, err := x.Float64()
			return time.Unix(int64(f), 0), err == nil
		}

		return time.Time{}, false
	}

	if t, ok := num("exp"); ok {
		limit(now.Sub(t.Add(leeway)))
	}

	if t, ok := num("nbf"); ok {
		limit(t.Sub(now.Add(leeway)))
	}

	if t, ok := num("iat"); ok {
		limit(t.Sub(now.Add(leeway)))
	}

	return v
}
