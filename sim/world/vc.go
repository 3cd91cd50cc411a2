package world

import (
	"fmt"

	"vcsim/core"
)

// Context URLs.
const (
	V1  = "https://www.w3.org/2018/credentials/v1"
	V2  = "https://www.w3.org/ns/credentials/v2"
	Sim = "https://sim.example/v1"
	PE  = "https://sim.example/pe/v1" // defines the types AlphaCredential, BetaCredential and GammaCredential
)

var words = []string{"alpha", "beta", "gamma", "Bob", "Ünïcode ✓", "", "0", "did:sim:x", "2024-01-01T00:00:00Z", "a\"b\\c", "<tag>&amp;"}

// VCSpec tunes GenVC.
type VCSpec struct {
	Issuer, Subject string
	V2              bool
	Flat            bool // single subject with an id
	NoNumbers       bool
	Seq             int
}

// GenVC makes the JSON of a valid credential; every one differs from every other by its id and a serial.
func GenVC(r *core.Run, s VCSpec) J {
	base := V1
	if s.V2 {
		base = V2
	}

	vc := J{"@context": []any{base, Sim}, "id": fmt.Sprintf("urn:uuid:0000-%d", s.Seq), "type": []any{"VerifiableCredential", "SimCredential"}}

	if r.Chance(1, 4, "issuer-object") {
		vc["issuer"] = J{"id": s.Issuer, "name": "Issuer Inc"}
	} else {
		vc["issuer"] = s.Issuer
	}

	from, until := "issuanceDate", "expirationDate"
	if s.V2 {
		from, until = "validFrom", "validUntil"
	}

	vc[from] = []string{"2024-01-01T00:00:00Z", "2023-06-30T10:20:30Z", "2024-02-29T23:59:59Z"}[r.Choose(3, "issued")]

	if r.Chance(1, 2, "expires") {
		vc[until] = []string{"2030-01-01T00:00:00Z", "2024-03-01T12:00:30Z", "2024-01-02T00:00:00Z"}[r.Choose(3, "until")]
	}

	sub := J{"id": s.Subject, "serial": fmt.Sprintf("s-%d", s.Seq), "name": words[r.Choose(len(words), "w")]}

	for i, n := 0, r.Choose(4, "claims"); i < n; i++ {
		k := fmt.Sprintf("claim%d", i)

		switch r.Choose(5, "ck") {
		case 0:
			sub[k] = words[r.Choose(len(words), "w")]
		case 1:
			if s.NoNumbers {
				sub[k] = "n7"
			} else {
				sub[k] = float64(r.Choose(100, "num"))
			}
		case 2:
			sub[k] = r.Chance(1, 2, "bool")
		case 3:
			sub[k] = J{"inner": words[r.Choose(len(words), "w")], "deep": J{"leaf": "l"}}
		case 4:
			sub[k] = []any{"x", words[r.Choose(len(words), "w")], "z"}
		}
	}

	vc["credentialSubject"] = sub

	if !s.Flat && r.Chance(1, 4, "subjects") {
		switch r.Choose(3, "sk") {
		case 0:
			vc["credentialSubject"] = []any{sub, J{"id": "did:sim:other-subject", "rel": "friend"}}
		case 1:
			vc["credentialSubject"] = []any{sub}
		case 2:
			delete(sub, "id")
		}
	}

	if r.Chance(1, 5, "evidence") {
		vc["evidence"] = []any{J{"id": "urn:ev:1", "type": []any{"DocumentVerification"}, "verifier": "did:sim:v"}}
	}

	if r.Chance(1, 5, "tou") {
		vc["termsOfUse"] = []any{J{"id": "urn:tou:1", "type": "IssuerPolicy", "profile": "urn:p"}}
	}

	if r.Chance(1, 6, "refresh") {
		vc["refreshService"] = J{"id": "https://issuer.example/refresh", "type": "ManualRefreshService2018"}
	}

	if r.Chance(1, 6, "custom") {
		vc["customField"] = words[r.Choose(len(words), "w")]
	}

	return vc
}
