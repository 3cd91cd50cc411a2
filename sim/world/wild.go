package world

import (
	"encoding/json"
	"sort"
	"strings"

	"vcsim/core"
)

// WildNames are member names the code under test gives a meaning to.
var WildNames = []string{
	"@context", "id", "@id", "type", "@type", "@value", "@list", "@graph", "proof", "credentialSubject", "issuer", "issuanceDate", "expirationDate", "validFrom", "validUntil",
	"name", "description", "termsOfUse", "evidence", "credentialStatus", "credentialSchema", "refreshService", "relatedResource", "digestSRI", "digestMultibase",
	"mediaType", "holder", "verifiableCredential", "vc", "vp", "iss", "sub", "jti", "nbf", "iat", "exp", "aud", "nonce", "cnf", "jwk", "kty", "crv", "x", "y", "alg", "kid", "typ", "cty", "b64", "crit",
	"_sd", "_sd_alg", "...", "sd_hash", "presentation_submission", "descriptor_map", "definition_id", "path", "path_nested", "format",
	"statusListIndex", "statusListCredential", "statusPurpose", "statusListSize", "encodedList", "statusSize", "statusMessage",
	"proofPurpose", "proofValue", "jws", "created", "expires", "verificationMethod", "cryptosuite", "domain", "challenge", "previousProof", "proofChain",
	"input_descriptors", "constraints", "fields", "filter", "submission_requirements", "from", "from_nested", "rule", "count", "min", "max", "group", "schema", "uri", "required",
	"limit_disclosure", "subject_is_issuer", "is_holder", "field_id", "directive", "predicate", "optional", "frame", "pattern", "enum", "const", "minimum", "items", "contains", "not", "allOf",
	"$ref", "$id", "allOf", "anyOf", "oneOf", "if", "then", "properties", "definitions", "dependencies", "additionalProperties", "patternProperties",
	"linked_dids", "origin", "service", "serviceEndpoint", "purpose", "",
}

var wildStrings = []string{
	"", "x", ":", "#", "did:", "did:sim:issuer0", "did:sim:issuer0#", "#key-0", "did:sim:nobody#k", "urn:x", "https://", "data:", "data:application/vc+jwt,", "data:application/vc-ld+jwt,x",
	"data:application/vc-ld+cwt;base64,", "data:application/vp-ld+jwt,a.b.c", "null", "true", "0", "-1", "1e400", "99999999999999999999", "2024-01-01T00:00:00Z", "2024-13-01T00:00:00Z", "0000-00-00T00:00:00Z",
	"1970-01-01T00:00:00.999999999+23:59", "u", "z", "m", "uH4sI", "H4sIAAAAAAAA_wMAAAAAAAAAAAA", "sha-256", "sha-999", "sha256-", "sha256-AA", "sha384-AAAA", "zQm", "uEiA", "$", "$.", "$..", "$..*", "$[", "$[0]", "$[-1]", "$['']", "$.vc", "$.verifiableCredential[0]",
	"$.verifiableCredential[99999999999]", "$.credentialSubject[?(@.a)]", "a.b.c", "..", ".", "~", "~~", "eyJhbGciOiJub25lIn0.e30.", "eyJhbGciOiJub25lIn0..", "e30.e30.", "e30.e30.e30", "bnVsbA.bnVsbA.", "Bearer", "EdDSA", "none", "application/vc", "\x00", "\xff\xfe", "\u2028", "[", "{}", "[]",
	"#/definitions/a", "#/properties/credentialSubject", "https://schema.example/a", "https://schema.example/b",
	"VerifiableCredential", "VerifiablePresentation", "EnvelopedVerifiableCredential", "EnvelopedVerifiablePresentation", "StatusList2021Entry", "BitstringStatusListEntry", "RevocationList2021Status", "StatusList2021", "RevocationList2020Status", "DataIntegrityProof", "Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020",
	"BbsBlsSignature2020", "BbsBlsSignatureProof2020", "EcdsaSecp256k1Signature2019", "JsonSchema", "JsonSchemaValidator2018", "DomainLinkageCredential", "assertionMethod", "authentication", "eddsa-rdfc-2022", "ecdsa-rdfc-2019",
	"https://www.w3.org/2018/credentials/v1", "https://www.w3.org/ns/credentials/v2", "all", "pick", "preferred", "jwt_vp", "ldp_vc",
}

// WildValue is anything but what is expected.
func WildValue(r *core.Run, depth int) any {
	switch k := r.Choose(17, "wild"); k {
	case 0:
		return nil
	case 1:
		return r.Chance(1, 2, "bool")
	case 2:
		return []any{float64(0), float64(-1), 1.5, 1e308, -1e308, 9007199254740993.0, 1e19, 4294967296.0, -62135596801.0, 253402300800.0}[r.Choose(10, "number")]
	case 3, 4, 5, 6, 7:
		return wildStrings[r.Choose(len(wildStrings), "string")]
	case 8:
		return J{}
	case 9:
		return []any{}
	case 10:
		return []any{nil}
	case 11:
		return strings.Repeat("A", 1+r.Choose(5000, "length"))
	case 12, 13:
		if depth > 2 {
			return []any{[]any{}}
		}

		m := J{}
		for i, n := 0, r.Choose(4, "members"); i < n; i++ {
			m[WildNames[r.Choose(len(WildNames), "name")]] = WildValue(r, depth+1)
		}

		return m
	case 14:
		return J{[]string{"$ref", "allOf", "anyOf", "not", "type", "pattern", "items", "const"}[r.Choose(8, "keyword")]: WildValue(r, depth+1)}
	default:
		if depth > 2 {
			return []any{J{}}
		}

		var a []any
		for i, n := 0, r.Choose(4, "elements"); i < n; i++ {
			a = append(a, WildValue(r, depth+1))
		}

		return a
	}
}

// Wild makes one place of a JSON object what nobody expects there, and says where. The object
// itself may be replaced by something that is none: root points to it.
func Wild(r *core.Run, root *any) string {
	var ps []path

	walk(*root, "", nil, &ps)

	m, isObj := (*root).(map[string]any)

	if len(ps) == 0 || r.Chance(1, 60, "whole") {
		*root = WildValue(r, 0)

		return "everything"
	}

	p := ps[r.Choose(len(ps), "wild-path")]

	switch r.Choose(8, "wild-op") {
	case 0, 1:
		p.set(WildValue(r, 0))

		return "set " + p.full
	case 2:
		if p.del != nil {
			p.del()

			return "delete " + p.full
		}

		p.set(nil)

		return "null " + p.full
	case 3:
		in := m
		at := "/"

		if x, ok := p.get.(map[string]any); ok {
			in, at = x, p.full+"/"
		} else if !isObj {
			p.set(J{})

			return "empty " + p.full
		}

		k := WildNames[r.Choose(len(WildNames), "name")]
		in[k] = WildValue(r, 0)

		return "add " + at + k
	case 4: // one becomes a list
		p.set([]any{p.get})

		return "wrap " + p.full
	case 5:
		if a, ok := p.get.([]any); ok {
			switch r.Choose(4, "list") {
			case 0:
				if len(a) > 0 {
					p.set(a[0])
				}
			case 1:
				p.set(append(append([]any{}, a...), WildValue(r, 1)))
			case 2:
				p.set(append(append([]any{}, a...), Clone(p.get).([]any)...))
			case 3:
				p.set(append([]any{nil}, a...))
			}
		} else {
			p.set([]any{p.get, WildValue(r, 1)})
		}

		return "list " + p.full
	case 6: // what is elsewhere
		q := ps[r.Choose(len(ps), "wild-other")]
		p.set(Clone(q.get))

		return "copy " + q.full + " to " + p.full
	default:
		if s, ok := p.get.(string); ok && len(s) > 0 {
			switch r.Choose(3, "text") {
			case 0:
				p.set(s[:r.Choose(len(s), "cut")])
			case 1:
				p.set(flipChar(s, r.Choose(len(s), "at")))
			case 2:
				p.set(J{"id": s})
			}

			return "text " + p.full
		}

		if x, ok := p.get.(map[string]any); ok { // an object becomes its id
			p.set(x["id"])
		} else {
			p.set(WildValue(r, 0))
		}

		return "reduce " + p.full
	}
}

// WildText damages encoded JSON in ways objects cannot show: repeated members, odd numbers, deep nesting.
func WildText(r *core.Run, b []byte) []byte {
	switch s := string(b); r.Choose(6, "wild-text") {
	case 0:
		var keys []string

		var m map[string]json.RawMessage
		if json.Unmarshal(b, &m) != nil || len(m) == 0 {
			return b
		}

		for k := range m {
			keys = append(keys, k)
		}

		sort.Strings(keys)
		k := keys[r.Choose(len(keys), "key")]
		v := Enc(WildValue(r, 1))

		if r.Chance(1, 2, "case") {
			k = strings.ToUpper(k)
		}

		return []byte(strings.TrimSuffix(strings.TrimSpace(s), "}") + "," + string(Enc(k)) + ":" + string(v) + "}")
	case 1:
		return []byte(s + s)
	case 2:
		n := 1 + r.Choose(3000, "depth")

		return []byte(strings.TrimSuffix(strings.TrimSpace(s), "}") + `,"deep":` + strings.Repeat("[", n) + strings.Repeat("]", n) + "}")
	case 3:
		return []byte(" " + s + "\n")
	default:
		return Garble(r, b)
	}
}
