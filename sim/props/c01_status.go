package props

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/did/endpoint"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/world"
)

func init() {
	core.Register(&core.Property{
		ID: "C01", Title: "Revoked or suspended credentials never pass a status check", Run: runStatus,
		Rule:    "one status check of one credential against its published status lists, its verdict compared with an independent reading of the bytes the network delivered to it",
		Measure: "status type x entry shape x bit states x list shape x delivery fault x verdict",
		Real:    []string{"status", "status/resolver", "status/validator", "status/internal/bitstring", "status/internal/identityhub", "verifiable (parsing)", "net/http client"},
		Stub:    []string{"HTTP servers and network", "DID registry", "clock"},
	})
}

type statusList struct {
	url      string
	issuer   string
	bits     []byte
	multi    bool
	hub      bool
	hubURL   string
	hubShape string
	version  int
}

type entrySpec struct {
	raw     map[string]any
	list    *statusList
	idx     int
	size    int // bits of the entry
	purpose string
	shape   string // "" well formed
}

// encodeBits is independent of the code under test.
func encodeBits(bits []byte, multi bool) string {
	var b bytes.Buffer

	w := gzip.NewWriter(&b)
	w.Write(bits)
	w.Close()

	s := base64.RawURLEncoding.EncodeToString(b.Bytes())
	if multi {
		return "u" + s
	}

	return s
}

func decodeBits(s string, multi bool) ([]byte, bool) {
	if multi {
		if !strings.HasPrefix(s, "u") {
			return nil, false // the model publishes base64url only; another base is judged leniently by the caller
		}

		s = s[1:]
	}

	raw, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		return nil, false
	}

	zr, err := gzip.NewReader(bytes.NewReader(raw))
	if err != nil {
		return nil, false
	}

	out, err := io.ReadAll(zr)

	return out, err == nil
}

var listShapes = []string{"", "no-subject", "empty-subject-array", "no-encodedList", "encodedList-number", "no-issuer", "other-issuer",
	"bad-base64", "bad-gzip", "empty-bits", "array", "null", "string", "two-subjects", "gzip-cut", "subject-string", "vc-wrapped"}

func (l *statusList) document(shape string) []byte {
	vc := map[string]any{
		"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "id": l.url,
		"type": []any{"VerifiableCredential", "StatusList2021Credential"}, "issuer": l.issuer, "issuanceDate": "2024-01-01T00:00:00Z",
		"credentialSubject": map[string]any{"id": l.url + "#list", "type": "StatusList2021", "statusPurpose": "revocation", "encodedList": encodeBits(l.bits, l.multi)},
	}
	sub := vc["credentialSubject"].(map[string]any)

	switch shape {
	case "no-subject":
		delete(vc, "credentialSubject")
	case "empty-subject-array":
		vc["credentialSubject"] = []any{}
	case "subject-string":
		vc["credentialSubject"] = "did:example:x"
	case "no-encodedList":
		delete(sub, "encodedList")
	case "encodedList-number":
		sub["encodedList"] = 5
	case "no-issuer":
		delete(vc, "issuer")
	case "other-issuer":
		vc["issuer"] = "did:sim:attacker"
	case "bad-base64":
		sub["encodedList"] = "u!!!"
	case "bad-gzip":
		sub["encodedList"] = encodeBits(l.bits, l.multi)[:1] + "AAAABBBB"
	case "gzip-cut":
		s := encodeBits(l.bits, l.multi)
		sub["encodedList"] = s[:len(s)/2]
	case "empty-bits":
		sub["encodedList"] = encodeBits(nil, l.multi)
	case "array":
		return []byte("[]")
	case "null":
		return []byte("null")
	case "string":
		return []byte(`"x"`)
	case "two-subjects":
		vc["credentialSubject"] = []any{sub, map[string]any{"id": "x"}}
	case "vc-wrapped":
		vc = map[string]any{"vc": vc}
	}

	b, _ := json.Marshal(vc)

	return b
}

const hubObject = "obj-1"

func (l *statusList) publish(n *world.Net, shape string) {
	doc := l.document(shape)

	if !l.hub {
		n.Serve(l.url, &world.Resource{Type: "application/json", Body: doc})

		return
	}

	n.Serve(l.hubURL, &world.Resource{Type: "application/json", Body: l.answer(doc)})
}

// hubShapes are the answers a hub may give about the object; "" is the plain one.
var hubShapes = []string{"", "several-replies", "own-reply-failed", "other-reply-failed", "earlier-reply-failed", "request-failed", "no-status", "other-objects",
	"case-folded-id", "second-copy", "object-missing", "no-descriptor", "bad-data", "no-reply-status", "created", "no-replies"}

func (l *statusList) answer(doc []byte) []byte {
	ok := map[string]any{"code": 200}
	bad := map[string]any{"code": 404, "message": "not found"}
	msg := func(id any, d []byte) any {
		return map[string]any{"descriptor": map[string]any{"method": "CollectionsWrite", "objectId": id}, "data": base64.StdEncoding.EncodeToString(d)}
	}
	reply := func(st any, entries ...any) any {
		m := map[string]any{"messageId": "m", "entries": entries}
		if st != nil {
			m["status"] = st
		}

		return m
	}

	// the opposite list, as another object of the hub
	flipped := &statusList{url: l.url, issuer: l.issuer, multi: l.multi, bits: bytes.Clone(l.bits)}
	for i := range flipped.bits {
		flipped.bits[i] ^= 0xff
	}

	decoy := flipped.document("")
	own := msg(hubObject, doc)

	h := map[string]any{"requestId": "r", "status": ok, "replies": []any{reply(ok, own)}}

	switch l.hubShape {
	case "several-replies":
		h["replies"] = []any{reply(ok), reply(ok, msg("obj-0", decoy)), reply(ok, own)}
	case "own-reply-failed":
		h["replies"] = []any{reply(ok, msg("obj-0", decoy)), reply(bad, own)}
	case "other-reply-failed":
		h["replies"] = []any{reply(ok, own), reply(bad)}
	case "earlier-reply-failed":
		h["replies"] = []any{reply(bad), reply(ok, own)}
	case "request-failed":
		h["status"] = bad
	case "no-status":
		delete(h, "status")
	case "other-objects":
		h["replies"] = []any{reply(ok, msg("obj-0", decoy), msg("obj-10", decoy), own, msg("obj-2", decoy))}
	case "case-folded-id":
		h["replies"] = []any{reply(ok, msg(strings.ToUpper(hubObject), doc))}
	case "second-copy":
		h["replies"] = []any{reply(ok, own, msg(hubObject, decoy))}
	case "object-missing":
		h["replies"] = []any{reply(ok, msg("obj-0", doc), msg(1, doc), msg("", doc))}
	case "no-descriptor":
		h["replies"] = []any{reply(ok, map[string]any{"data": base64.StdEncoding.EncodeToString(doc)})}
	case "bad-data":
		h["replies"] = []any{reply(ok, map[string]any{"descriptor": map[string]any{"objectId": hubObject}, "data": "!!!"}, own)}
	case "no-reply-status":
		h["replies"] = []any{reply(nil, own)}
	case "created":
		h["replies"] = []any{reply(map[string]any{"code": 201}, own)}
	case "no-replies":
		h["replies"] = nil
	}

	b, _ := json.Marshal(h)

	return b
}

// verdict of the model on one entry, from the bytes that were delivered: "clear", "set", or why it is neither.
func modelEntry(e *entrySpec, issuer string, body []byte) string {
	if e.list.hub {
		var h struct {
			Status *struct {
				Code int `json:"code"`
			} `json:"status"`
			Replies []struct {
				Status struct {
					Code int `json:"code"`
				} `json:"status"`
				Entries []struct {
					Descriptor map[string]any `json:"descriptor"`
					Data       string         `json:"data"`
				} `json:"entries"`
			} `json:"replies"`
		}

		if json.Unmarshal(body, &h) != nil {
			return "hub answer unreadable"
		}

		if h.Status != nil && h.Status.Code != 200 {
			return "hub error"
		}

		body = nil

		for _, r := range h.Replies {
			if r.Status.Code != 200 {
				return "hub message error"
			}

			for _, m := range r.Entries {
				if o, _ := m.Descriptor["objectId"].(string); strings.EqualFold(o, hubObject) && body == nil {
					d, err := base64.StdEncoding.DecodeString(m.Data)
					if err != nil {
						return "hub data"
					}

					body = d
				}
			}
		}

		if body == nil {
			return "hub object missing"
		}
	}

	var vc map[string]any
	if json.Unmarshal(body, &vc) != nil || vc == nil {
		return "not a JSON object"
	}

	iss, _ := vc["issuer"].(string)
	if m, ok := vc["issuer"].(map[string]any); ok {
		iss, _ = m["id"].(string)
	}

	if iss != issuer {
		return "issuer differs"
	}

	sub, ok := vc["credentialSubject"].(map[string]any)
	if !ok {
		arr, _ := vc["credentialSubject"].([]any)
		if len(arr) == 0 {
			return "no subject"
		}

		sub, _ = arr[0].(map[string]any)
	}

	el, ok := sub["encodedList"].(string)
	if !ok {
		return "no list"
	}

	bits, ok := decodeBits(el, e.list.multi)
	if !ok {
		return "list undecodable"
	}

	if e.idx < 0 || e.idx >= len(bits)*8/e.size {
		return "index outside the list"
	}

	for k := e.idx * e.size; k < (e.idx+1)*e.size; k++ {
		if bits[k/8]&(1<<(k%8)) != 0 {
			return "set"
		}
	}

	return "clear"
}

type vdrStub struct {
	vdrapi.Registry
	g *world.Registry
}

func (v vdrStub) Resolve(id string, opts ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return v.g.Resolve(id, opts...)
}

// hubServices are the services of a hub's DID document.
func hubServices(r *core.Run, id, url string, hostile bool) []did.Service {
	var ep endpoint.Endpoint

	forms := 6
	if hostile {
		forms = 11
	}

	switch r.Choose(forms, "endpoint-form") {
	case 0:
		ep = endpoint.NewDIDCommV1Endpoint(url)
	case 1:
		ep = endpoint.NewDIDCommV2Endpoint([]endpoint.DIDCommV2Endpoint{{URI: url}, {URI: url + "/other"}})
	case 2:
		ep = endpoint.NewDIDCoreEndpoint([]any{url, url + "/other"})
	case 3:
		ep = endpoint.NewDIDCoreEndpoint(map[string]any{"origins": []any{url, url + "/other"}})
	case 4:
		ep = endpoint.NewDIDCoreEndpoint(map[string]any{"instances": []any{url}})
	case 5:
		ep = endpoint.NewDIDCoreEndpoint(map[string]any{"nodes": map[string]any{"origins": []any{url}}})
	case 6:
		ep = endpoint.NewDIDCoreEndpoint([]any{})
	case 7:
		ep = endpoint.NewDIDCoreEndpoint(map[string]any{"origins": []any{}})
	case 8:
		ep = endpoint.NewDIDCoreEndpoint(map[string]any{"instances": []any{}})
	case 9:
		ep = endpoint.NewDIDCoreEndpoint(map[string]any{})
	case 10:
		ep = endpoint.NewDIDCoreEndpoint(map[string]any{"origins": map[string]any{"a": 1.0}})
	}

	svc := []did.Service{{ID: id + "#hub", Type: "IdentityHub", ServiceEndpoint: ep}}

	if r.Chance(1, 4, "other-service") {
		o := did.Service{ID: id + "#site", Type: "LinkedDomains", ServiceEndpoint: endpoint.NewDIDCommV1Endpoint(url + "/site")}
		svc = append([]did.Service{o}, svc...)
	}

	return svc
}

func runStatus(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{0, 4, 16, 64}[r.Choose(4, "preempt")]})

	net := world.NewNet(r)
	reg := world.NewRegistry(r)

	faulty := r.Chance(2, 3, "faulty")
	hostile := r.Chance(1, 3, "hostile")

	const issuer = "did:sim:issuer"

	nLists := r.N(1, 3, "lists")
	lists := make([]*statusList, nLists)

	for i := range lists {
		size := []int{1, 2, 16, 64}[r.Choose(4, "size")]
		l := &statusList{url: fmt.Sprintf("https://issuer.example/status/%d", i), issuer: issuer, bits: make([]byte, size), multi: r.Chance(1, 2, "multi")}

		for k := range l.bits {
			l.bits[k] = byte(r.Choose(4, "b")) * byte(1+r.Choose(85, "m"))
		}

		if r.Chance(1, 4, "hub") {
			l.hub = true
			l.hubURL = fmt.Sprintf("https://hub.example/%d", i)
			d := fmt.Sprintf("did:sim:hub%d", i)
			q, _ := json.Marshal([]any{map[string]any{"method": "CollectionsQuery", "objectId": hubObject}})
			l.url = d + "?service=IdentityHub&queries=" + base64.StdEncoding.EncodeToString(q)
			reg.PublishSvc(d, hubServices(r, d, l.hubURL, hostile))
		}

		if l.hub && hostile {
			l.hubShape = hubShapes[r.Choose(len(hubShapes), "hub-shape")]
			if l.hubShape != "" {
				r.FaultFired("hub-answer-" + l.hubShape)
			}
		}

		lists[i] = l
		shape := ""

		if hostile && r.Chance(1, 2, "list-shape") {
			shape = listShapes[r.Choose(len(listShapes), "shape")]
			if shape != "" {
				r.FaultFired("status-list-" + shape)
			}
		}

		l.publish(net, shape)
	}

	var vdr vdrapi.Registry = vdrStub{g: reg}

	hc := net.Client()
	if r.Chance(1, 3, "client-timeout") {
		hc.Timeout = 30 * time.Second
	}

	client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(hc, vdr, "token")}

	makeEntry := func(i int) *entrySpec {
		l := lists[r.Choose(len(lists), "list")]
		e := &entrySpec{list: l, purpose: []string{"revocation", "suspension"}[r.Choose(2, "purpose")]}
		e.idx = r.Choose(len(l.bits)*8, "idx")
		typ := "StatusList2021Entry"

		if l.multi {
			typ = "BitstringStatusListEntry"
		}

		e.raw = map[string]any{"id": l.url + "#" + strconv.Itoa(e.idx), "type": typ, "statusListCredential": l.url,
			"statusListIndex": strconv.Itoa(e.idx), "statusPurpose": e.purpose}
		e.size = 1

		if l.multi && r.Chance(1, 4, "wide-entry") {
			e.size = r.N(1, 4, "entry-bits")
			e.idx /= e.size
			e.raw["statusListIndex"] = strconv.Itoa(e.idx)
			e.raw["statusSize"] = e.size

			var msgs []any
			for k := range 1<<e.size - 1 {
				msgs = append(msgs, map[string]any{"status": fmt.Sprintf("0x%x", k), "message": fmt.Sprint("m", k)})
			}

			e.raw["statusMessage"] = msgs
		}

		if hostile && r.Chance(1, 3, "entry-shape") {
			e.shape = []string{"no-index", "index-number", "index-negative", "index-huge", "index-float", "index-overflow", "no-purpose", "other-purpose",
				"no-list", "list-number", "other-type", "no-type", "size-2", "size-0", "index-beyond", "index-space", "purpose-number",
				"index-zeros", "index-hex", "index-underscore", "index-plus", "size-string", "size-messages", "size-far"}[r.Choose(24, "es")]
			r.FaultFired("status-entry-" + e.shape)

			switch e.shape {
			case "no-index":
				delete(e.raw, "statusListIndex")
			case "index-number":
				e.raw["statusListIndex"] = e.idx
			case "index-negative":
				e.idx = -1 - r.Choose(len(l.bits)*8, "neg")
				e.raw["statusListIndex"] = strconv.Itoa(e.idx)
			case "index-huge":
				e.idx = 1 << 40
				e.raw["statusListIndex"] = strconv.Itoa(e.idx)
			case "index-float":
				e.raw["statusListIndex"] = strconv.Itoa(e.idx) + ".0"
			case "index-overflow":
				e.raw["statusListIndex"] = "18446744073709551616"
			case "index-beyond":
				e.idx = len(l.bits)*8 + r.Choose(8, "beyond")
				e.raw["statusListIndex"] = strconv.Itoa(e.idx)
			case "index-zeros":
				e.raw["statusListIndex"] = "00"[:1+r.Choose(2, "zeros")] + strconv.Itoa(e.idx)
			case "index-plus":
				e.raw["statusListIndex"] = "+" + strconv.Itoa(e.idx)
			case "index-hex":
				e.raw["statusListIndex"] = fmt.Sprintf("0x%x", e.idx)
			case "index-underscore":
				e.raw["statusListIndex"] = strconv.Itoa(1+e.idx) + "_0"
			case "index-space":
				e.raw["statusListIndex"] = " " + strconv.Itoa(e.idx)
			case "no-purpose":
				delete(e.raw, "statusPurpose")
			case "other-purpose":
				e.raw["statusPurpose"] = "refresh"
				e.purpose = "refresh"
			case "purpose-number":
				e.raw["statusPurpose"] = 3
				e.purpose = ""
			case "no-list":
				delete(e.raw, "statusListCredential")
			case "list-number":
				e.raw["statusListCredential"] = 7
			case "other-type":
				e.raw["type"] = "RevocationList2020Status"
			case "no-type":
				delete(e.raw, "type")
			case "size-2":
				e.raw["statusSize"] = 2
				delete(e.raw, "statusMessage")
			case "size-string":
				e.raw["statusSize"] = "1"
			case "size-messages":
				e.raw["statusSize"] = 2
				e.raw["statusMessage"] = []any{map[string]any{"status": "0x0", "message": "m"}}
			case "size-far":
				e.idx = 1 << 62
				e.size = 2
				e.raw["statusListIndex"] = strconv.Itoa(e.idx)
				e.raw["statusSize"] = 2
				e.raw["statusMessage"] = []any{1, 2, 3}
			case "size-0":
				e.raw["statusSize"] = 0
			}

			if !l.multi && strings.HasPrefix(e.shape, "size") {
				e.shape = "" // not a field of this entry type
			}
		}

		return e
	}

	if faulty {
		net.Rate = 250
		reg.Fail, reg.Slow = 60, 60
	}

	nTasks := r.N(1, 3, "verifiers")
	tasks := []func(){}

	for k := 0; k < nTasks; k++ {
		tasks = append(tasks, func() {
			for op := 0; op < 4; op++ {
				if r.Chance(1, 4, "update") {
					// the issuer revokes or reinstates
					l := lists[r.Choose(len(lists), "upd")]
					i := r.Choose(len(l.bits)*8, "bit")
					nb := bytes.Clone(l.bits)
					nb[i/8] ^= 1 << (i % 8)
					l.bits = nb
					l.version++
					l.publish(net, "")
					r.Logf("issuer flips bit %d of %s", i, l.url)
				}

				var entries []*entrySpec
				for i, n := 0, []int{1, 1, 1, 2, 2, 3}[r.Choose(6, "entries")]; i < n; i++ {
					entries = append(entries, makeEntry(i))
				}

				checkStatusOnce(r, net, client, issuer, entries, hostile)

				if r.Failed() {
					return
				}
			}
		})
	}

	r.Parallel("verifier", tasks...)

	if open := net.Open(); len(open) > 0 {
		r.Violate("body-left-open", "status", "response bodies were never closed: %v", open)
	}
}

func checkStatusOnce(r *core.Run, net *world.Net, client *status.Client, issuer string, entries []*entrySpec, hostile bool) {
	var st any

	raws := make([]any, len(entries))
	for i, e := range entries {
		raws[i] = e.raw
	}

	if len(raws) == 1 && r.Chance(1, 2, "single") {
		st = raws[0]
	} else {
		st = raws
	}

	vcj := map[string]any{
		"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "id": "urn:vc:1", "type": "VerifiableCredential",
		"issuer": issuer, "issuanceDate": "2024-01-01T00:00:00Z", "credentialSubject": map[string]any{"id": "did:sim:subject"},
		"credentialStatus": st,
	}

	credIssuer := issuer

	if hostile && r.Chance(1, 6, "cred-issuer") {
		switch r.Choose(3, "ci") {
		case 0:
			vcj["issuer"] = map[string]any{"id": issuer, "name": "Issuer"}
		case 1:
			vcj["issuer"] = "did:sim:other"
			credIssuer = "did:sim:other"
		case 2:
			delete(vcj, "issuer")
			credIssuer = "\x00none"
		}
	}

	b, _ := json.Marshal(vcj)

	cred, err := verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	if err != nil {
		r.Logf("credential not parsed: %v", err)

		return
	}

	from := len(net.Log)

	var verr error

	if p := core.Do(func() { verr = client.VerifyStatus(cred) }); p != "" {
		r.Violate("panic", core.PanicSite(p), "status check panicked: %s\ncredential: %s", p, b)

		return
	}

	ex := net.Window(from)

	// the model walks the entries, matching each with its delivery
	want := "clear"
	at := ""
	lenient := false
	used := 0

	for _, e := range entries {
		v := ""

		switch e.shape {
		case "", "index-negative", "size-far", "index-huge", "index-beyond", "other-purpose", "purpose-number":
		case "index-zeros", "index-plus":
			lenient = true // it may be refused, but says the decimal number if anything
		default:
			v = "malformed entry: " + e.shape
		}

		if v == "" {
			if used >= len(ex) {
				// nothing was fetched for this entry: a registry lookup failed, or an answer was remembered.
				// What a remembered answer may be is judged against what the issuer publishes now.
				cur := net.Get(e.list.url)
				if e.list.hub {
					cur = net.Get(e.list.hubURL)
				}

				v = modelEntry(e, credIssuer, cur.Body)
				lenient = true
			} else {
				x := ex[used]
				used++

				switch {
				case x.Err:
					v = "no answer: " + x.FaultName()
				case x.Status != 200:
					v = fmt.Sprintf("status %d", x.Status)
				default:
					v = modelEntry(e, credIssuer, x.Served)
				}

				if x.Fault != world.NetOK {
					at += x.FaultName() + ";"

					if x.Fault != world.NetSlow && x.Fault != world.NetSlowBody {
						lenient = true
					}
				}
			}
		}

		if v != "clear" {
			want = v
			if v == "set" {
				want = "set:" + e.purpose
			}

			break
		}
	}

	got := "clear"

	switch {
	case errors.Is(verr, status.ErrRevoked):
		got = "set:revocation"
	case errors.Is(verr, status.ErrSuspended):
		got = "set:suspension"
	case verr != nil:
		got = "error"
	}

	shapes := ""
	for _, e := range entries {
		shapes += fmt.Sprintf("%v/%v/%s,", e.raw["type"], e.raw["statusPurpose"], e.shape)
	}

	r.Eval("entries=%d %s want=%s got=%s faults=%s", len(entries), shapes, clipw(want), got, at)
	r.Logf("status check: want %s got %s (%v) faults %s", want, got, verr, at)

	switch {
	case got == "clear" && want != "clear":
		rule := "fail-open"
		r.Violate(rule, strings.SplitN(want, ":", 2)[0], "the status check passed although the credential's status is %q\ncredential: %s\nfaults: %s", want, b, at)
	case strings.HasPrefix(got, "set:") && got != want && (!lenient || strings.Contains(shapes, "index-zeros") && len(entries) == 1 && at == "" && want == "clear"):
		r.Violate("wrong-verdict", got, "the status check said %s, the published list says %s\ncredential: %s", got, want, b)
	case strings.HasPrefix(want, "set:r") && got == "error" && !lenient || strings.HasPrefix(want, "set:s") && got == "error" && !lenient:
		if want == "set:revocation" || want == "set:suspension" {
			r.Violate("wrong-verdict", want, "the list says %s but the check reported only %v\ncredential: %s", want, verr, b)
		}
	case want == "clear" && got == "error" && !lenient && len(entries) > 0:
		r.Violate("false-alarm", "clear", "a credential whose status is clear was refused: %v\ncredential: %s", verr, b)
	}
}

func clipw(s string) string {
	if len(s) > 40 {
		return s[:40]
	}

	return s
}
