package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C11", Title: "SD-JWT holder verification accepts only the bound key's proof for this session", Run: runSDHolder,
		Rule:    "one presentation of a holder-bound SD-JWT received by a verifier session, judged by the record of which key signed which binding over what and by the session's nonce, audience, algorithms and clock",
		Measure: "session policy x binding origin x tampering x clock state x verdict",
		Real:    []string{"sdjwt/verifier (holder and key binding)", "sdjwt/holder", "sdjwt/issuer", "sdjwt/common", "jwt", "proof/checker (embedded key)", "crypto-ext verifiers"},
		Stub:    []string{"DID registry", "remote signer", "delivery channel", "clock"},
	})
}

// kbMade is one holder verification JWT somebody signed.
type kbMade struct {
	tok     string
	key     *world.Key
	alg     string
	payload world.J
	how     string
	pres    string // the presentation it was made in
}

type hbWallet struct {
	name string
	key  *world.Key
	sds  []*sdIssued
}

type hbSession struct {
	nonce, aud string
	required   bool
	algs       []string // nil: the defaults
	leeway     time.Duration
	leewaySet  bool
	asksAud    bool
	asksNonce  bool
	typ        string   // the type the token must have, if any
	issAlgs    []string // what the issuer may sign with, nil: the defaults
	oldNames   bool     // the options are given by their earlier names
}

type hbWorld struct {
	*sdWorld
	wallets []*hbWallet
	kbs     []*kbMade
	all     []*sdIssued
	seq     int
}

func runSDHolder(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 8, 64}[r.Choose(3, "preempt")]})

	w := &hbWorld{sdWorld: newSDWorld(r)}
	if r.Chance(1, 5, "registry-faults") {
		w.reg.Fail, w.reg.Slow = 60, 60
	}

	kinds := []world.Kind{world.Ed, world.P256, world.P384, world.K256, world.RSA, world.RSAPS}

	for i, n := 0, r.N(2, 3, "wallets"); i < n; i++ {
		w.wallets = append(w.wallets, &hbWallet{name: fmt.Sprintf("wallet%d", i), key: world.GetKey(kinds[r.Choose(len(kinds), "holder-kind")], 20+i)})
	}

	for i, n := 0, r.N(2, 4, "documents"); i < n && !r.Failed(); i++ {
		wa := w.wallets[r.Choose(len(w.wallets), "owner")]
		sp := sdSpec{holder: wa.key, times: r.Chance(1, 2, "times"), cred: r.Chance(1, 2, "credential")}

		if r.Chance(1, 6, "unbound") {
			sp.holder = nil
		}

		if is := w.issue(sp); is != nil {
			w.all = append(w.all, is)
			wa.sds = append(wa.sds, is)
		}
	}

	if len(w.all) == 0 || r.Failed() {
		return
	}

	var tasks []func()

	for i, n := 0, r.N(1, 3, "verifiers"); i < n; i++ {
		aud := fmt.Sprintf("https://verifier%d.example", i)

		tasks = append(tasks, func() {
			for op := 0; op < 4 && !r.Failed(); op++ {
				w.session(aud)
			}
		})
	}

	r.Parallel("verifier", tasks...)
}

// bind makes a holder verification JWT.
func (w *hbWorld) bind(k *world.Key, nonce, aud, how, combined string, sel []string) *kbMade {
	r := w.r
	skew := time.Duration(0)

	if r.Chance(1, 4, "holder-clock-off") {
		skew = []time.Duration{-2 * time.Hour, -50 * time.Second, 50 * time.Second, 90 * time.Second, 2 * time.Hour}[r.Choose(5, "skew")]

		r.FaultFired("holder-clock-skew")
	}

	now := time.Now().Add(skew)
	h := jose.Headers{"alg": k.Alg}
	typ := []string{"kb+jwt", "", "JWT", "KB+JWT"}[r.Choose(4, "kb-typ")]

	if typ != "" {
		h["typ"] = typ
	}

	p := holder.BindingPayload{Nonce: nonce, Audience: aud}
	if !r.Chance(1, 5, "no-iat") {
		p.IssuedAt = jwt.NewNumericDate(now)
	}

	if r.Chance(1, 4, "by-hand") {
		pay := world.Dec(world.Enc(p))
		if r.Chance(1, 2, "kb-exp") {
			pay["exp"] = now.Add(time.Duration(r.N(-100, 300, "exp")) * time.Second).Unix()
		}

		if r.Chance(1, 3, "kb-nbf") {
			pay["nbf"] = now.Add(time.Duration(r.N(-100, 100, "nbf")) * time.Second).Unix()
		}

		switch r.Choose(8, "kb-odd") {
		case 0:
			delete(pay, "nonce")
		case 1:
			delete(pay, "aud")
		case 2:
			pay["nonce"] = strings.ToUpper(nonce)
		case 3:
			pay["aud"] = aud + "/"
		case 4:
			pay["nonce"] = nonce + " "
		}

		b := world.Enc(pay)
		m := &kbMade{tok: signJWT(k, world.Dec(world.Enc(h)), b), key: k, alg: k.Alg, payload: world.Dec(b), how: how}
		w.kbs = append(w.kbs, m)

		return m
	}

	var (
		tok string
		err error
	)

	s := &world.Signer{K: k, R: r}
	if r.Chance(1, 10, "wallet-key-fault") {
		s.Fail = 500
	}

	info := &holder.BindingInfo{Payload: p, Headers: h, Signer: joseSigner{s}}
	pres := ""

	// a wallet that keeps what it holds (or presented before) as a credential
	if combined != "" && strings.Contains(combined, "~") && r.Chance(1, 3, "kept-as-credential") {
		kept := combined

		if len(w.kbs) > 0 && r.Chance(1, 2, "presented-before") {
			kept = strings.TrimSuffix(kept, "~") + "~" + w.kbs[r.Choose(len(w.kbs), "earlier")].tok
		}

		if c, e := verifiable.ParseCredential([]byte(kept), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation()); e != nil {
			r.Logf("kept as a credential: %v", e)
		} else if len(c.SDJWTDisclosures()) > 0 {
			if pn := core.Do(func() {
				pres, err = c.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DisclosureHolderBinding(info))
			}); pn != "" {
				r.Violate("panic", core.PanicSite(pn), "MarshalWithDisclosure panicked: %s", pn)

				return nil
			}

			r.Eval("credential presented with a binding, before=%v ok=%v", kept != combined, err == nil)

			if err == nil {
				_, ds, kb := splitSD(pres)
				_, all, _ := splitSD(strings.TrimSuffix(combined, "~") + "~")
				tok = kb

				if !slices.Equal(ds, all) {
					r.Violate("wrong-disclosures", "bound credential", "a presentation carries %v, the credential has %v", ds, all)
				}
			}
		}
	}

	if pn := core.Do(func() {
		if pres != "" || err != nil {
			return
		}

		if len(sel) == 0 || r.Chance(1, 2, "binding-alone") {
			tok, err = holder.CreateHolderVerification(info)

			return
		}

		with := holder.WithHolderVerification
		if r.Chance(1, 3, "old-option") {
			with = holder.WithHolderBinding
		}

		if pres, err = holder.CreatePresentation(combined, sel, with(info)); err == nil {
			var ds []string

			if _, ds, tok = splitSD(pres); !slices.Equal(ds, sel) {
				r.Violate("wrong-disclosures", "bound", "a presentation carries %v, selected were %v", ds, sel)
			}
		}
	}); pn != "" {
		r.Violate("panic", core.PanicSite(pn), "CreateHolderVerification panicked: %s", pn)

		return nil
	}

	if err != nil {
		if s.Failures == 0 {
			r.Violate("cannot-bind", "holder", "a holder verification could not be made: %v", err)
		}

		return nil
	}

	_, pb, _, _ := splitJWT(tok)
	m := &kbMade{tok: tok, key: k, alg: k.Alg, payload: world.Dec(pb), how: how, pres: pres}
	w.kbs = append(w.kbs, m)

	if s.Failures > 0 || !world.Same(rejson(m.payload), rejson(world.Dec(world.Enc(p)))) {
		r.Violate("cannot-bind", "says", "a holder verification says %s, asked for was %s (signer failed %d times)", pb, world.Enc(p), s.Failures)
	}

	return m
}

// wallet answers a request with a presentation.
func (w *hbWorld) answer(is *sdIssued, s *hbSession) (pres string, kb *kbMade) {
	r := w.r
	sel, _ := w.selectDiscs(is)

	if is.holder == nil || r.Chance(1, 8, "unbound-answer") {
		return strings.Join(append([]string{is.jwt}, sel...), "~") + "~", nil
	}

	kb = w.bind(is.holder, s.nonce, s.aud, "honest", is.combined, sel)
	if kb == nil {
		return "", nil
	}

	if kb.pres != "" {
		return kb.pres, kb
	}

	return strings.Join(append([]string{is.jwt}, append(sel, kb.tok)...), "~"), kb
}

func (w *hbWorld) session(aud string) {
	r := w.r
	w.seq++
	s := &hbSession{nonce: fmt.Sprintf("Nonce-%d", w.seq), aud: aud, required: r.Chance(1, 2, "required"),
		asksAud: !r.Chance(1, 5, "no-aud"), asksNonce: !r.Chance(1, 5, "no-nonce")}

	if !r.Chance(1, 3, "default-algs") {
		s.algs = allAlgs
		if r.Chance(1, 4, "few-algs") {
			s.algs = []string{"EdDSA", "ES256"}
		}
	}

	if r.Chance(1, 3, "leeway") {
		s.leewaySet = true
		s.leeway = []time.Duration{0, 10 * time.Second, 10 * time.Minute}[r.Choose(3, "leeway")]
	} else {
		s.leeway = jwt.DefaultLeeway
	}

	is := w.all[r.Choose(len(w.all), "doc")]
	s.issAlgs, s.oldNames = allAlgs, r.Chance(1, 4, "old-names")

	if r.Chance(1, 5, "issuer-algs") {
		s.issAlgs = [][]string{nil, {"EdDSA"}, {"ES256", "ES384"}, {"eddsa"}}[r.Choose(4, "allowed")]
	}

	if r.Chance(1, 4, "expected-typ") {
		s.typ = []string{is.typ, is.typ, "vc+sd-jwt", "VC+SD-JWT", "sd-jwt", "dc+sd-jwt"}[r.Choose(6, "typ")]
	}

	pres, kb := w.answer(is, s)

	if pres == "" || r.Failed() {
		return
	}

	how := "clean"
	if r.Chance(1, 2, "attack") {
		is, pres, how = w.attack(is, s, pres, kb)
		r.FaultFired("binding-" + strings.Fields(how)[0])
	}

	if r.Chance(1, 3, "delay") {
		d := time.Duration(r.N(1, 900, "delay")) * time.Second
		r.FaultFired("delivery-delayed")
		r.Sleep(d)
	}

	w.receive(is, s, pres, how)

	// the same message again, to this session or to a later one
	if r.Chance(1, 4, "duplicate") && !r.Failed() {
		r.FaultFired("delivery-duplicated")

		s2 := *s
		w.seq++
		s2.nonce = fmt.Sprintf("Nonce-%d", w.seq)

		if r.Chance(1, 2, "elsewhere") {
			s2.aud = "https://other.example"
		}

		w.receive(is, &s2, pres, how+" replayed")
	}
}

// attack changes a presentation or puts one together from what the attacker has seen and can sign.
func (w *hbWorld) attack(is *sdIssued, s *hbSession, pres string, kb *kbMade) (*sdIssued, string, string) {
	r := w.r
	i := strings.LastIndex(pres, "~")
	head, tail := pres[:i+1], pres[i+1:]
	evil := world.GetKey(world.Ed, 99)

	if kb != nil && r.Chance(1, 2, "same-kind") {
		evil = world.GetKey(is.holder.Kind, 98)
	}

	switch r.Choose(12, "attack") {
	case 0:
		return is, head, "stripped"
	case 1: // signed by somebody else
		if m := w.bind(evil, s.nonce, s.aud, "attacker", "", nil); m != nil {
			return is, head + m.tok, "attacker-key"
		}
	case 2: // a binding from another session or wallet
		if len(w.kbs) > 0 {
			return is, head + w.kbs[r.Choose(len(w.kbs), "old")].tok, "replayed-binding"
		}
	case 3: // the binding under another document
		o := w.all[r.Choose(len(w.all), "other")]
		sel, _ := w.selectDiscs(o)

		return o, strings.Join(append([]string{o.jwt}, append(sel, tail)...), "~"), "other-document"
	case 4: // attacker's key in the header
		h := world.J{"alg": evil.Alg, "typ": "kb+jwt", "jwk": world.Dec(must(json.Marshal(evil.JWK))), "kid": w.evil.KID(0)}
		b := world.Enc(world.J{"nonce": s.nonce, "aud": s.aud, "iat": time.Now().Unix()})
		m := &kbMade{tok: signJWT(evil, h, b), key: evil, alg: evil.Alg, payload: world.Dec(b), how: "attacker header key"}
		w.kbs = append(w.kbs, m)

		return is, head + m.tok, "header-key"
	case 5: // no signature
		e := base64.RawURLEncoding
		h := world.J{"alg": []string{"none", "None", "", "EdDSA"}[r.Choose(4, "none")], "typ": "kb+jwt"}
		b := world.Enc(world.J{"nonce": s.nonce, "aud": s.aud, "iat": time.Now().Unix()})

		return is, head + e.EncodeToString(world.Enc(h)) + "." + e.EncodeToString(b) + "." + []string{"", "AAAA"}[r.Choose(2, "sig")], "unsigned"
	case 6: // change what the binding says
		if h, p, sig, ok := splitJWT(tail); ok && kb != nil {
			pay := world.Dec(p)

			switch r.Choose(4, "change") {
			case 0:
				pay["nonce"] = "Nonce-" + fmt.Sprint(r.Choose(9, "n"))
			case 1:
				pay["aud"] = "https://other.example"
			case 2:
				pay["exp"] = time.Now().Add(time.Hour).Unix()
			case 3:
				if h["typ"] == nil {
					h["typ"] = "kb+jwt"
				} else {
					delete(h, "typ")
				}
			}

			return is, head + joinJWT(h, world.Enc(pay), sig), "changed-binding"
		}
	case 7: // signature bits
		if h, p, sig, ok := splitJWT(tail); ok && len(sig) > 0 {
			sig = append([]byte{}, sig...)

			if r.Chance(1, 2, "cut") {
				sig = sig[:r.Choose(len(sig), "at")]
			} else {
				sig[r.Choose(len(sig), "byte")] ^= 1 << r.Choose(8, "bit")
			}

			return is, head + joinJWT(h, p, sig), "broken-signature"
		}
	case 8: // another verifier's answer
		if is.holder != nil {
			s2 := *s
			s2.aud = "https://phish.example"

			if m := w.bind(is.holder, s2.nonce, s2.aud, "phished", "", nil); m != nil {
				return is, head + m.tok, "phished-audience"
			}
		}
	case 9: // the SD-JWT itself in the place of the binding, or an SD-JWT signed by the holder's key
		return is, head + is.jwt, "token-as-binding"
	case 10: // bound document replaced by a self-made one that names the attacker's key
		pay := world.CloneJ(is.payload)
		pay["cnf"] = world.J{"jwk": world.Dec(must(json.Marshal(evil.JWK)))}
		h, _, sig, _ := splitJWT(is.jwt)
		m := w.bind(evil, s.nonce, s.aud, "attacker", "", nil)

		if m != nil {
			tok := joinJWT(h, world.Enc(pay), sig)
			if r.Chance(1, 2, "resigned") {
				tok = signJWT(w.evil.Cur[0].Key, world.J{"alg": "EdDSA", "kid": w.evil.KID(0)}, world.Enc(pay))
			}

			return nil, tok + "~" + m.tok, "swapped-cnf"
		}
	case 11:
		return is, pres + "~", "extra-separator"
	}

	return is, pres, "nothing"
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}

	return b
}

func (w *hbWorld) receive(is *sdIssued, s *hbSession, pres, how string) {
	r := w.r
	opts := []verifier.ParseOpt{verifier.WithSignatureVerifier(w.checker)}
	issAlgs := s.issAlgs

	if issAlgs != nil {
		opts = append(opts, verifier.WithIssuerSigningAlgorithms(issAlgs))
	} else {
		issAlgs = []string{"EdDSA", "RS256"}
	}

	if s.typ != "" {
		opts = append(opts, verifier.WithExpectedTypHeader(s.typ))
	}

	needed, nonceIs, audIs := verifier.WithHolderVerificationRequired, verifier.WithExpectedNonceForHolderVerification, verifier.WithExpectedAudienceForHolderVerification
	if s.oldNames {
		needed, nonceIs, audIs = verifier.WithHolderBindingRequired, verifier.WithExpectedNonceForHolderBinding, verifier.WithExpectedAudienceForHolderBinding
	}

	opts = append(opts, needed(s.required))

	if s.asksNonce {
		opts = append(opts, nonceIs(s.nonce))
	}

	if s.asksAud {
		opts = append(opts, audIs(s.aud))
	}

	algs := s.algs
	if algs != nil {
		opts = append(opts, verifier.WithHolderSigningAlgorithms(algs))
	} else {
		algs = []string{"EdDSA", "RS256"}
	}

	if s.leewaySet {
		opts = append(opts, verifier.WithLeewayForClaimsValidation(s.leeway))
	}

	from := len(w.reg.Log)

	var (
		out map[string]any
		err error
	)

	started := time.Now()

	if p := core.Do(func() { out, err = verifier.Parse(pres, opts...) }); p != "" {
		r.Violate("panic", core.PanicSite(p), "verifier.Parse (%s) panicked: %s\n%s", how, p, pres)

		return
	}

	slow := time.Since(started) > time.Second

	i := strings.LastIndex(pres, "~")
	tail := pres[i+1:]
	tok, discs, _ := splitSD(pres[:i+1])

	why, edge := "", slow
	no := func(f string, a ...any) {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
	}

	switch {
	case is == nil:
		no("its issuer never signed it")
	case tok != is.jwt:
		no("it is not the token that was issued")
	default:
		if _, e := refProcess(is.payload, discs, is.alg); e != nil {
			no("disclosures: %v", e)
		}

		hd, _, _, _ := splitJWT(tok)
		if !slices.Contains(issAlgs, str(hd["alg"])) {
			no("the issuer's algorithm %v is not allowed", hd["alg"])
		}

		if s.typ != "" && hd["typ"] != s.typ {
			no("the token has type %v, expected is %s", hd["typ"], s.typ)
		}

		seen := map[string]bool{}
		for _, d := range discs {
			if seen[d] {
				no("duplicate disclosure")
			}

			seen[d] = true
		}

		switch timeVerdict(is.payload, s.leeway) {
		case timeBad:
			no("the SD-JWT is outside its validity period")
		case timeEdge:
			edge = true
		}
	}

	if tail == "" {
		if s.required {
			no("holder verification is required and there is none")
		}
	} else if is != nil {
		var m *kbMade

		th, tp, tsig, ok := splitJWT(tail)

		for _, k := range w.kbs {
			h, p, sig, _ := splitJWT(k.tok)
			if ok && world.Same(h, th) && bytes.Equal(p, tp) && bytes.Equal(sig, tsig) {
				m = k
			}
		}

		switch {
		case is.holder == nil:
			no("the SD-JWT is bound to no key")
		case m == nil:
			no("nobody made this holder verification")
		case m.key != is.holder:
			no("the holder verification is not by the bound key")
		default:
			has := false
			for _, a := range algs {
				has = has || a == m.alg
			}

			if !has {
				no("the holder's algorithm %s is not allowed", m.alg)
			}

			if s.asksNonce && m.payload["nonce"] != s.nonce {
				no("nonce %v instead of %s", m.payload["nonce"], s.nonce)
			}

			if s.asksAud && m.payload["aud"] != s.aud {
				no("audience %v instead of %s", m.payload["aud"], s.aud)
			}

			switch timeVerdict(m.payload, s.leeway) {
			case timeBad:
				no("the holder verification is outside its validity period")
			case timeEdge:
				edge = true
			}
		}
	}

	r.Eval("required=%v nonce=%v aud=%v %s ok=%v accepted=%v", s.required, s.asksNonce, s.asksAud, how, why == "", err == nil)
	r.Logf("%s: expected %q, got err=%v", how, why, err)

	switch {
	case err == nil && why != "" && !edge:
		r.Violate("accepted-unbound", how, "a presentation was accepted although %s (%s)\nnow %s session %+v\nbinding %s\ntoken %s", why, how, time.Now().UTC(), *s, describeJWT(tail), describeJWT(tok))
	case err != nil && why == "" && !edge && !w.registryFailed(from):
		r.Violate("false-reject", how, "a good presentation was refused (%s): %v\nnow %s session %+v\nbinding %s\ntoken %s", how, err, time.Now().UTC(), *s, describeJWT(tail), describeJWT(tok))
	case err == nil && is != nil:
		want, _ := refProcess(is.payload, discs, is.alg)
		if !world.Same(normClaims(rejson(out)), normClaims(rejson(want))) {
			r.Violate("wrong-claims", "holder", "the claims read are wrong:\ngot  %s\nwant %s", world.Enc(out), world.Enc(want))
		}
	}
}

func describeJWT(t string) string {
	h, p, sig, ok := splitJWT(t)
	if !ok {
		return fmt.Sprintf("%q", t)
	}

	return fmt.Sprintf("%s.%s.(%d bytes)", world.Enc(h), p, len(sig))
}
