From 190f49cc5196b6766ea5e99063365770f9526a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 01/70] fix: status check must not panic on a status list VC
 without a credential subject

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 1b2c8a1..c042831 100644
--- a/status/status.go
+++ b/status/status.go
@@ -92,6 +92,9 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	credSubject := statusListVCC.Subject
+	if len(credSubject) == 0 {
+		return errors.New("status list vc has no credential subject")
+	}
 
 	encodedList, ok := credSubject[0].CustomFields["encodedList"].(string)
 	if !ok {
-- 
2.43.0


From 39e89e392d7f9a9fe1e7859087597f53e0b1ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 02/70] fix: a document with an empty proof set must not pass
 the proof check

---
 verifiable/embedded_proof.go      | 22 ++++++++++++----------
 verifiable/lddocument/verifier.go |  4 ++++
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 0ecb2c2..f8d7a32 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -55,23 +55,25 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 		return fmt.Errorf("check embedded proof: %w", err)
 	}
 
+	if len(proofs) == 0 {
+		return errors.New("proof not found")
+	}
+
 	if len(opts.externalContext) > 0 {
 		// Use external contexts for check of the linked data proofs to enrich JSON-LD context vocabulary.
 		jsonldDoc["@context"] = jsonld.AppendExternalContexts(jsonldDoc["@context"], opts.externalContext...)
 	}
 
-	if len(proofs) > 0 {
-		typeStr, ok := proofs[0]["type"]
-		if ok && typeStr == models.DataIntegrityProof {
-			var docBytes []byte
+	typeStr, ok := proofs[0]["type"]
+	if ok && typeStr == models.DataIntegrityProof {
+		var docBytes []byte
 
-			docBytes, err = json.Marshal(jsonldDoc)
-			if err != nil {
-				return err
-			}
-
-			return checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+		docBytes, err = json.Marshal(jsonldDoc)
+		if err != nil {
+			return err
 		}
+
+		return checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
 	}
 
 	if opts.proofChecker == nil {
diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index 92d38ff..c02e8eb 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -58,6 +58,10 @@ func (dv *DocumentVerifier) VerifyObject(jsonLdObject map[string]interface{},
 		return err
 	}
 
+	if len(proofs) == 0 {
+		return proof.ErrProofNotFound
+	}
+
 	for _, p := range proofs {
 		message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 			wrapped:      dv.proofChecker,
-- 
2.43.0


From 02f8014244a81f6aaf9a40d98a4cebc1cbd17a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 03/70] fix: a JWT without a vc claim or registered claims must
 not panic the credential parser

---
 verifiable/credential_jwt.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index b6f3785..dc3bad3 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -183,6 +183,14 @@ func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 	vcMap := jcc.VC
 	claims := jcc.Claims
 
+	if vcMap == nil {
+		return errors.New("no credential in JWT claims")
+	}
+
+	if claims == nil {
+		return nil
+	}
+
 	if iss := claims.Issuer; iss != "" {
 		err := refineVCIssuerFromJWTClaims(vcMap, iss)
 		if err != nil {
-- 
2.43.0


From 166e4b77c6bb6a75588826dbe8edc68fd20bafe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 04/70] fix: a JWT without a vp claim or registered claims must
 not panic the presentation parser

---
 verifiable/presentation_jwt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index e384815..7a25923 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -22,6 +22,10 @@ type JWTPresClaims struct {
 func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	raw := jpc.Presentation
 
+	if raw == nil || jpc.Claims == nil {
+		return
+	}
+
 	if jpc.Issuer != "" {
 		raw[vpFldHolder] = jpc.Issuer
 	}
-- 
2.43.0


From 08cb96930827c326f4a24565b9e7f44d91a30076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 05/70] fix: keep the order of SD-JWT disclosures when they are
 parsed

---
 sdjwt/common/common.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index 98f8264..43f26ea 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -138,9 +138,23 @@ func GetDisclosureClaims(
 		}
 	}
 
+	// Keep the order of the given disclosures, a repeated disclosure stands at its first position.
 	final := make([]*DisclosureClaim, 0, len(disclosureClaims))
+	added := make(map[*DisclosureClaim]struct{}, len(disclosureClaims))
+
+	for _, disclosure := range disclosures {
+		digest, err := GetHash(hash, disclosure)
+		if err != nil {
+			return nil, fmt.Errorf("get disclosure hash: %w", err)
+		}
+
+		disclosureClaim := recData.disclosures[digest]
+		if _, ok := added[disclosureClaim]; ok {
+			continue
+		}
+
+		added[disclosureClaim] = struct{}{}
 
-	for _, disclosureClaim := range recData.disclosures {
 		final = append(final, disclosureClaim)
 	}
 
-- 
2.43.0


From 2f9238141b015652844a4e2bd737eb6a33225091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 06/70] fix: a null claim must not panic SD-JWT V5 issuance

---
 sdjwt/issuer/v5.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 8966af0..011175f 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -110,7 +110,8 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 			curPath = path + "." + key
 		}
 
-		kind := reflect.TypeOf(value).Kind()
+		// a null claim has no type, its kind is reflect.Invalid
+		kind := reflect.ValueOf(value).Kind()
 
 		valOption := s.extractValueOptions(curPath, opts)
 
-- 
2.43.0


From 5edc979f45b80829bc60a3b53d72fba7cc094cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 07/70] fix: a display of selected disclosures must not show
 disclosures nested in them that were not selected

---
 verifiable/credential_sdjwt.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 380cc19..ea66cb8 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -496,7 +496,10 @@ func (vc *Credential) CreateDisplayCredential( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := displayedDisclosures(vc, options)
+	if err != nil {
+		return nil, err
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -558,7 +561,10 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := displayedDisclosures(vc, options)
+	if err != nil {
+		return nil, err
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -572,6 +578,29 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	return newVCObj, nil
 }
 
+// displayedDisclosures returns the disclosures to display. The values of a credential's disclosures have all of its
+// nested disclosures put in place, so a selection of them has to be decoded anew, without those left out.
+func displayedDisclosures(vc *Credential, options *displayCredOpts) ([]*common.DisclosureClaim, error) {
+	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+
+	if options.displayAll {
+		return useDisclosures, nil
+	}
+
+	codes := make([]string, len(useDisclosures))
+
+	for i, disclosure := range useDisclosures {
+		codes[i] = disclosure.Disclosure
+	}
+
+	selected, err := common.GetDisclosureClaims(codes, *vc.credentialContents.SDJWTHashAlg)
+	if err != nil {
+		return nil, fmt.Errorf("decode disclosures to display: %w", err)
+	}
+
+	return selected, nil
+}
+
 func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displayCredOpts) []*common.DisclosureClaim {
 	if options.displayAll {
 		return disclosures
-- 
2.43.0


From 38fb399fd31a6339ad2f9ef7071ec99ff4dd6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 08/70] fix: decoy digests of an SD-JWT V5 must not come with
 undecodable disclosures

---
 sdjwt/issuer/v5.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 011175f..a2210a5 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -96,13 +96,13 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 	ignorePrimitives bool,
 ) ([]*DisclosureEntity, map[string]interface{}, error) {
 	digestsMap := map[string]interface{}{}
-	finalSDDigest, err := createDecoyDisclosures(opts)
 
+	decoyDisclosures, err := createDecoyDisclosures(opts)
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to create decoy disclosures: %w", err)
 	}
 
-	var allDisclosures []*DisclosureEntity
+	var finalSDDigest, allDisclosures []*DisclosureEntity
 
 	for key, value := range claims {
 		curPath := key
@@ -238,7 +238,8 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 		}
 	}
 
-	digests, err := createDigests(finalSDDigest, opts)
+	// Decoys have digests, but no disclosures.
+	digests, err := createDigests(append(decoyDisclosures, finalSDDigest...), opts)
 
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From b14175db898a88f270b1753851eba47d54915b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 09/70] fix: number claims given as JSON or a struct must not
 become strings in SD-JWT disclosures

---
 sdjwt/issuer/issuer.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 6390df7..38e9ca7 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -51,6 +51,7 @@ import (
 	"strings"
 	"time"
 
+	josejson "github.com/go-jose/go-jose/v3/json"
 	"github.com/go-jose/go-jose/v3/jwt"
 
 	"github.com/trustbloc/kms-go/doc/jose"
@@ -352,7 +353,7 @@ func WithRecursiveClaimsObjects(recursiveClaimsObject []string) NewOpt {
 func New(issuer string, claims interface{}, headers jose.Headers,
 	signer jose.Signer, opts ...NewOpt) (*SelectiveDisclosureJWT, error) {
 	nOpts := &newOpts{
-		jsonMarshal:    json.Marshal,
+		jsonMarshal:    marshalJSON,
 		HashAlg:        defaultHash,
 		nonSDClaimsMap: make(map[string]bool),
 		version:        common.SDJWTVersionDefault,
@@ -469,6 +470,35 @@ func NewFromVC(vc map[string]interface{}, headers jose.Headers,
 	return sdJWT, nil
 }
 
+// marshalJSON marshals a disclosure. Claims that were not given as a map have been decoded by go-jose, whose
+// json.Number is just a string to encoding/json.
+func marshalJSON(v interface{}) ([]byte, error) {
+	return json.Marshal(toStdNumbers(v))
+}
+
+func toStdNumbers(v interface{}) interface{} {
+	switch value := v.(type) {
+	case josejson.Number:
+		return json.Number(value)
+	case []interface{}:
+		values := make([]interface{}, len(value))
+		for i, element := range value {
+			values[i] = toStdNumbers(element)
+		}
+
+		return values
+	case map[string]interface{}:
+		values := make(map[string]interface{}, len(value))
+		for name, member := range value {
+			values[name] = toStdNumbers(member)
+		}
+
+		return values
+	default:
+		return v
+	}
+}
+
 func createPayload(issuer string, nOpts *newOpts) *payload {
 	var cnf map[string]interface{}
 	if nOpts.HolderPublicKey != nil {
-- 
2.43.0


From 23c5a40fd9b58f6e5e5348bea7ed67fa56f8cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 10/70] fix: selectively disclosable claims nested in array
 elements must be processed

---
 sdjwt/common/verification.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index fc72bda..68c8016 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -159,18 +159,23 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 		var newValues []interface{}
 
 		for _, value := range disclosureValue {
-			parsedMap, ok := getMap(value)
-			if !ok {
-				// If it's not a map - use value as it is.
-				newValues = append(newValues, value)
-				continue
-			}
+			parsedMap, _ := getMap(value)
 
 			// Find all array elements that are objects with one key, that key being ... and referring to a string.
 			arrayElementDigestIface, ok := parsedMap[ArrayElementDigestKey]
 			if !ok {
-				// If it's not a array element digest - object - use value as it is.
-				newValues = append(newValues, value)
+				// If it's not an array element digest - process the digests nested in it.
+				newValue, err := discloseClaimValue(value, recData)
+				if err != nil {
+					return nil, err
+				}
+
+				if _, isArray := value.([]interface{}); isArray && newValue == nil {
+					newValue = []interface{}{} // keep the place of an array that has nothing left.
+				}
+
+				newValues = append(newValues, newValue)
+
 				continue
 			}
 
-- 
2.43.0


From 6cafe6751fd4230c4e9a6c2dc180c3ed8419d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 11/70] fix: every disclosure with a selected name must be
 disclosed, in order

---
 verifiable/credential_sdjwt.go | 38 ++++++++--------------------------
 1 file changed, 9 insertions(+), 29 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index ea66cb8..698afb5 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -224,43 +224,23 @@ func filterDisclosures(
 	disclosures []*common.DisclosureClaim,
 	ifAvailable, required []string,
 ) ([]*common.DisclosureClaim, error) {
-	ifAvailMap := map[string]*common.DisclosureClaim{}
-	reqMap := map[string]*common.DisclosureClaim{}
-
-	for _, name := range ifAvailable {
-		ifAvailMap[name] = nil
-	}
-
-	for _, name := range required {
-		reqMap[name] = nil
-
-		delete(ifAvailMap, name) // avoid listing a disclosure twice, if it's in both lists
-	}
-
-	for _, disclosure := range disclosures {
-		if _, ok := ifAvailMap[disclosure.Name]; ok {
-			ifAvailMap[disclosure.Name] = disclosure
-		}
-
-		if _, ok := reqMap[disclosure.Name]; ok {
-			reqMap[disclosure.Name] = disclosure
-		}
-	}
+	wanted := common.SliceToMap(append(append([]string{}, ifAvailable...), required...))
+	found := map[string]bool{}
 
 	var out []*common.DisclosureClaim
 
-	for _, claim := range ifAvailMap {
-		if claim != nil {
-			out = append(out, claim)
+	// claims of different objects may have the same name.
+	for _, disclosure := range disclosures {
+		if wanted[disclosure.Name] {
+			out = append(out, disclosure)
+			found[disclosure.Name] = true
 		}
 	}
 
-	for _, claim := range reqMap {
-		if claim == nil {
+	for _, name := range required {
+		if !found[name] {
 			return nil, errors.New("disclosure list missing required claim")
 		}
-
-		out = append(out, claim)
 	}
 
 	return out, nil
-- 
2.43.0


From aef093fd48075cca47e5c5c3a85f6340cf63d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 12/70] fix: skip domain linkage credentials that have no
 issuer

---
 didconfig/verifier/didconfig.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 3ec3599..1a3ff26 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -411,9 +411,16 @@ func getCredentials(linkedDIDs []interface{}, did, domain string, opts ...verifi
 			continue
 		}
 
-		if vc.Contents().Issuer.ID != did {
+		issuer := vc.Contents().Issuer
+		if issuer == nil {
+			debugLogger.Printf("skipping credential since it has no issuer")
+
+			continue
+		}
+
+		if issuer.ID != did {
 			debugLogger.Printf("skipping credential since issuer[%s] is different from DID[%s]",
-				vc.Contents().Issuer.ID, did)
+				issuer.ID, did)
 
 			continue
 		}
-- 
2.43.0


From f05e62a8e6a4c56a01286f0c44c3cbb3f6d14aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 13/70] fix: a domain linkage credential with an empty subject
 must not panic

---
 didconfig/verifier/didconfig.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 1a3ff26..cc7ec0c 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -318,6 +318,10 @@ func validateSubject(subject interface{}, did, origin string) error {
 			return errors.New("encountered multiple subjects")
 		}
 
+		if len(s) == 0 {
+			return errors.New("credentialSubject MUST be present")
+		}
+
 		subject := s[0]
 
 		if subject.ID == "" {
-- 
2.43.0


From 5a027f96578c8ecd20dd0511eaff2e2c9ed1ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 14/70] fix: origins without a scheme must not all count as the
 same origin

---
 didconfig/verifier/didconfig.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index cc7ec0c..8152a64 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -379,7 +379,9 @@ func validateOrigin(origin1, origin2 string) error {
 	// The protocol (e.g., HTTP or HTTPS)
 	// The port, if available
 	// The host
-	if url1.Host != url2.Host || url1.Scheme != url2.Scheme || url1.Port() != url2.Port() {
+	// A value without a host (such as a bare host name, which parses as a path) has none of these to compare.
+	if url1.Host != url2.Host || url1.Scheme != url2.Scheme || url1.Port() != url2.Port() ||
+		(url1.Host == "" && origin1 != origin2) {
 		return fmt.Errorf("origin[%s] and domain origin[%s] are different", origin1, origin2)
 	}
 
-- 
2.43.0


From fd4ccb6c302c80582838ea88bae5230155dd6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 15/70] fix: an empty set of data integrity proofs must not
 pass verification

---
 dataintegrity/verifier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 32068cc..69d2a89 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -100,7 +100,12 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 		return ErrMalformedProof
 	}
 
-	for _, proof := range proofRaw.Array() {
+	proofs := proofRaw.Array()
+	if len(proofs) == 0 {
+		return ErrMissingProof
+	}
+
+	for _, proof := range proofs {
 		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
 			return err
 		}
-- 
2.43.0


From 01ccd50c1fe6c37f4fc3f4ffdc5bfe0e9b2d7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 16/70] fix: each data integrity proof of a set must be
 verified with its own options

---
 dataintegrity/verifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 69d2a89..cbc878f 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -106,7 +106,10 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 	}
 
 	for _, proof := range proofs {
-		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
+		// verifyProof fills in its options from the proof, which must affect neither the next proof nor the caller.
+		proofOpts := *opts
+
+		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, &proofOpts); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 2aeeaed74e34c1e249cd05324315909d7481b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 17/70] fix: the domain and challenge of a data integrity proof
 must be covered when none is expected

---
 dataintegrity/verifier.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index cbc878f..0e155bc 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -184,8 +184,6 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return err
 	}
 
-	verifyResult := verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
-
 	if opts.Domain != "" && opts.Domain != proof.Domain {
 		return ErrInvalidDomain
 	}
@@ -194,5 +192,9 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrInvalidChallenge
 	}
 
-	return verifyResult
+	// the proof covers its own domain and challenge, whether or not the caller expects certain ones.
+	opts.Domain = proof.Domain
+	opts.Challenge = proof.Challenge
+
+	return verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
 }
-- 
2.43.0


From 0e11ea76cf12f916266bd5983ec76af5e24b5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 18/70] fix: an eddsa data integrity proof must name the
 cryptosuite it was made with

---
 dataintegrity/suite/eddsa2022/eddsa2022.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index d6c5dbe..aff4eb2 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -196,7 +196,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 
 	p := &models.Proof{
 		Type:               models.DataIntegrityProof,
-		CryptoSuite:        SuiteType,
+		CryptoSuite:        suiteType(opts),
 		ProofPurpose:       opts.Purpose,
 		Domain:             opts.Domain,
 		Challenge:          opts.Challenge,
@@ -306,16 +306,19 @@ func hashData(docData, proofData []byte, h hash.Hash) []byte {
 	return append(proofHash, docHash...)
 }
 
-func proofConfig(docCtx interface{}, opts *models.ProofOptions) map[string]interface{} {
-	suiteType := SuiteType
+func suiteType(opts *models.ProofOptions) string {
 	if opts.SuiteType != "" {
-		suiteType = opts.SuiteType
+		return opts.SuiteType
 	}
 
+	return SuiteType
+}
+
+func proofConfig(docCtx interface{}, opts *models.ProofOptions) map[string]interface{} {
 	proof := map[string]interface{}{
 		ldCtxKey:             docCtx,
 		"type":               models.DataIntegrityProof,
-		"cryptosuite":        suiteType,
+		"cryptosuite":        suiteType(opts),
 		"verificationMethod": opts.VerificationMethodID,
 		"proofPurpose":       opts.Purpose,
 	}
-- 
2.43.0


From cc64a01913065f90d681298c28a01a40cad474cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 19/70] fix: adding a data integrity proof must keep the proofs
 a document has, and not sign over them

---
 dataintegrity/signer.go         | 28 +++++++++++++++++++++++++++-
 verifiable/linked_data_proof.go |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index bc72f6b..9c4cab4 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 	"github.com/trustbloc/did-go/doc/did"
 
@@ -98,7 +99,19 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, err
 	}
 
-	proof, err := signerSuite.CreateProof(doc, opts)
+	// A proof covers the document without the proofs it carries already, which stay beside the new one.
+	existingProofs := gjson.GetBytes(doc, proofPath).Array()
+
+	unsecuredDoc := doc
+
+	if len(existingProofs) > 0 {
+		unsecuredDoc, err = sjson.DeleteBytes(doc, proofPath)
+		if err != nil {
+			return nil, ErrProofGeneration
+		}
+	}
+
+	proof, err := signerSuite.CreateProof(unsecuredDoc, opts)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
 		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
@@ -125,6 +138,19 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, ErrProofGeneration
 	}
 
+	if len(existingProofs) > 0 {
+		proofs := make([]json.RawMessage, 0, len(existingProofs)+1)
+
+		for _, existing := range existingProofs {
+			proofs = append(proofs, json.RawMessage(existing.Raw))
+		}
+
+		proofRaw, err = json.Marshal(append(proofs, proofRaw))
+		if err != nil {
+			return nil, ErrProofGeneration
+		}
+	}
+
 	out, err := sjson.SetRawBytes(doc, proofPath, proofRaw)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
diff --git a/verifiable/linked_data_proof.go b/verifiable/linked_data_proof.go
index 910f22a..a8ce974 100644
--- a/verifiable/linked_data_proof.go
+++ b/verifiable/linked_data_proof.go
@@ -74,7 +74,7 @@ func mapJSONLDProcessorOpts(jsonldOpts *jsonldCredentialOpts) []ldprocessor.Opts
 }
 
 type rawProof struct {
-	Proof JSONObject `json:"proof,omitempty"`
+	Proof interface{} `json:"proof,omitempty"`
 }
 
 // addLinkedDataProof adds a new proof to the JSON-LD document (VC or VP). It returns a slice
-- 
2.43.0


From 2c56f9fbcb596f0418bfe55da889e59438f88424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 20/70] fix: a data integrity proof of a credential must be
 made with a key of its issuer

---
 verifiable/embedded_proof.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index f8d7a32..3e2cd98 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
@@ -73,7 +74,12 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 			return err
 		}
 
-		return checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+		err = checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+		if err != nil {
+			return err
+		}
+
+		return checkDataIntegrityProofIssuer(proofs, expectedProofIssuer)
 	}
 
 	if opts.proofChecker == nil {
@@ -89,6 +95,24 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 	return nil
 }
 
+// checkDataIntegrityProofIssuer checks that the data integrity proofs are made with keys of the expected issuer.
+func checkDataIntegrityProofIssuer(proofs []map[string]interface{}, expectedProofIssuer *string) error {
+	if expectedProofIssuer == nil {
+		return nil
+	}
+
+	for _, p := range proofs {
+		verificationMethod, _ := p["verificationMethod"].(string) // nolint:errcheck
+
+		if strings.Split(verificationMethod, "#")[0] != *expectedProofIssuer {
+			return fmt.Errorf("verification method %q of data integrity proof does not belong to issuer %q",
+				verificationMethod, *expectedProofIssuer)
+		}
+	}
+
+	return nil
+}
+
 func getProofs(proofElement interface{}) ([]map[string]interface{}, error) {
 	switch p := proofElement.(type) {
 	case map[string]interface{}:
-- 
2.43.0


From 212da3ceced9390009ccf5886a89b9eb89e3b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 21/70] fix: a document that is not JSON must not pass data
 integrity proof verification

---
 dataintegrity/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 0e155bc..a4f807a 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -95,6 +95,10 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 		return ErrMissingProof
 	}
 
+	if !gjson.ValidBytes(doc) {
+		return ErrMalformedProof
+	}
+
 	unsecuredDoc, err := sjson.DeleteBytes(doc, proofPath)
 	if err != nil {
 		return ErrMalformedProof
-- 
2.43.0


From 8803868b1defc612bb34db150d709e27f4fd3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 22/70] fix: the proof of a COSE presentation must be checked

---
 verifiable/presentation_parser.go | 35 +++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 97c6195..f805d09 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -16,7 +16,9 @@ import (
 	"github.com/samber/lo"
 	"github.com/veraison/go-cose"
 
+	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
 type parsePresentationResponse struct {
@@ -117,10 +119,9 @@ type VpCWT struct {
 type PresentationCWTParser struct {
 }
 
-func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*parsePresentationResponse, error) {
+func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (*parsePresentationResponse, error) {
 	var rawErr, hexRawErr, hexErr error
 
-	// todo proof checker !!
 	message, rawErr := p.parsePres(vpData)
 
 	if rawErr != nil {
@@ -141,6 +142,10 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 		return nil, errors.Join(errors.New("parsed vp cbor message is nil"), rawErr, hexRawErr, hexErr)
 	}
 
+	if err := p.checkProof(message, vpOpts); err != nil {
+		return nil, err
+	}
+
 	var vpMap map[interface{}]interface{}
 	if err := cbor.Unmarshal(message.Payload, &vpMap); err != nil {
 		return nil, fmt.Errorf("unmarshal cbor vp payload: %w", err)
@@ -165,6 +170,32 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 	}, nil
 }
 
+func (p *PresentationCWTParser) checkProof(message *cose.Sign1Message, vpOpts *presentationOpts) error {
+	if vpOpts.disabledProofCheck {
+		return nil
+	}
+
+	if vpOpts.proofChecker == nil {
+		return errors.New("proof checker is not defined")
+	}
+
+	// a presentation has to name the key of its holder, a COSE_Key header would let anybody sign.
+	if keyID, ok := message.Headers.Protected[cose.HeaderLabelKeyID].([]byte); !ok || len(keyID) == 0 {
+		return errors.New("missed kid in cwt header")
+	}
+
+	proofValue, err := cwt2.GetProofValue(message)
+	if err != nil {
+		return fmt.Errorf("get cwt proof value: %w", err)
+	}
+
+	if err = cwt.CheckProof(message, vpOpts.proofChecker, nil, proofValue, message.Signature); err != nil {
+		return fmt.Errorf("cwt proof check: %w", err)
+	}
+
+	return nil
+}
+
 func (p *PresentationCWTParser) parsePres(data []byte) (*cose.Sign1Message, error) {
 	var message cose.Sign1Message
 
-- 
2.43.0


From 7c77e814cb97fcb57edefea34ae52e25399647c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 23/70] fix: a panic of the JSON-LD processor on a malformed
 document must not crash the caller

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go |  5 ++++-
 dataintegrity/suite/eddsa2022/eddsa2022.go |  5 ++++-
 proof/checker/checker.go                   |  5 ++++-
 proof/creator/creator.go                   |  5 ++++-
 util/jsonld/guard.go                       | 18 ++++++++++++++++++
 verifiable/bbs_selective_disclosure.go     |  5 ++++-
 verifiable/credential.go                   |  5 ++++-
 verifiable/presentation.go                 |  5 ++++-
 8 files changed, 46 insertions(+), 7 deletions(-)
 create mode 100644 util/jsonld/guard.go

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index ea79497..e51aace 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -27,6 +27,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	"github.com/trustbloc/vc-go/util/jsonld"
 )
 
 const (
@@ -375,7 +376,9 @@ func (s *Suite) RequiresCreated() bool {
 }
 
 func canonicalize(data map[string]interface{}, loader ld.DocumentLoader, mda ld.MessageDigestAlgorithm,
-) ([]byte, error) {
+) (_ []byte, err error) {
+	defer jsonld.Guard(&err)
+
 	out, err := processor.Default().GetCanonicalDocument(
 		data,
 		processor.WithDocumentLoader(loader),
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index aff4eb2..e2f657a 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -24,6 +24,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	"github.com/trustbloc/vc-go/util/jsonld"
 )
 
 const (
@@ -286,7 +287,9 @@ func (s *Suite) RequiresCreated() bool {
 	return false
 }
 
-func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) ([]byte, error) {
+func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) (_ []byte, err error) {
+	defer jsonld.Guard(&err)
+
 	out, err := processor.Default().GetCanonicalDocument(data, processor.WithDocumentLoader(loader))
 	if err != nil {
 		return nil, fmt.Errorf("canonicalizing signature base data: %w", err)
diff --git a/proof/checker/checker.go b/proof/checker/checker.go
index 0f1295a..4174565 100644
--- a/proof/checker/checker.go
+++ b/proof/checker/checker.go
@@ -22,6 +22,7 @@ import (
 
 	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
 	proofdesc "github.com/trustbloc/vc-go/proof"
+	"github.com/trustbloc/vc-go/util/jsonld"
 	"github.com/trustbloc/vc-go/vermethod"
 )
 
@@ -180,12 +181,14 @@ func (c *ProofChecker) CheckLDProof(proof *proof.Proof, expectedProofIssuer stri
 
 // GetLDPCanonicalDocument will return normalized/canonical version of the document.
 func (c *ProofCheckerBase) GetLDPCanonicalDocument(proof *proof.Proof,
-	doc map[string]interface{}, opts ...processor.Opts) ([]byte, error) {
+	doc map[string]interface{}, opts ...processor.Opts) (_ []byte, err error) {
 	supportedProof, err := c.getSupportedProof(proof.Type)
 	if err != nil {
 		return nil, err
 	}
 
+	defer jsonld.Guard(&err)
+
 	return supportedProof.proofDescriptor.GetCanonicalDocument(doc, opts...)
 }
 
diff --git a/proof/creator/creator.go b/proof/creator/creator.go
index 02ef155..5301c78 100644
--- a/proof/creator/creator.go
+++ b/proof/creator/creator.go
@@ -18,6 +18,7 @@ import (
 	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
 	proofdesc "github.com/trustbloc/vc-go/proof"
+	"github.com/trustbloc/vc-go/util/jsonld"
 )
 
 // ProofCreator incapsulate logic of proof creation.
@@ -94,12 +95,14 @@ func (c *ProofCreator) SignLinkedDocument(proof *proof.Proof, keyType kms.KeyTyp
 
 // GetLDPCanonicalDocument will return normalized/canonical version of the document.
 func (c *ProofCreator) GetLDPCanonicalDocument(proof *proof.Proof,
-	doc map[string]interface{}, opts ...processor.Opts) ([]byte, error) {
+	doc map[string]interface{}, opts ...processor.Opts) (_ []byte, err error) {
 	supportedProof, err := c.getSupportedProof(proof.Type)
 	if err != nil {
 		return nil, err
 	}
 
+	defer jsonld.Guard(&err)
+
 	return supportedProof.proofDescriptor.GetCanonicalDocument(doc, opts...)
 }
 
diff --git a/util/jsonld/guard.go b/util/jsonld/guard.go
new file mode 100644
index 0000000..bfbc7c7
--- /dev/null
+++ b/util/jsonld/guard.go
@@ -0,0 +1,18 @@
+/*
+Copyright Gen Digital Inc. All Rights Reserved.
+
+SPDX-License-Identifier: Apache-2.0
+*/
+
+// Package jsonld contains helpers for JSON-LD processing.
+package jsonld
+
+import "fmt"
+
+// Guard is to be deferred by functions that give received documents to the JSON-LD processor: the processor panics
+// on some malformed documents, which must not take the caller down.
+func Guard(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("json-ld processing failed: %v", r)
+	}
+}
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index d8e14f1..844660b 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -16,6 +16,7 @@ import (
 	"github.com/trustbloc/did-go/doc/ld/proof"
 
 	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignatureproof2020"
+	"github.com/trustbloc/vc-go/util/jsonld"
 	"github.com/trustbloc/vc-go/vermethod"
 )
 
@@ -45,7 +46,9 @@ type BBSProofCreator struct {
 // BBSSelectiveDisclosure creates selective disclosure from the input doc which must have a BBS+ proof
 // (with BbsBlsSignature2020 type).
 func BBSSelectiveDisclosure(doc map[string]interface{}, revealDoc map[string]interface{},
-	nonce []byte, bbsProofCreator *BBSProofCreator, opts ...processor.Opts) (map[string]interface{}, error) {
+	nonce []byte, bbsProofCreator *BBSProofCreator, opts ...processor.Opts) (_ map[string]interface{}, err error) {
+	defer jsonld.Guard(&err)
+
 	docWithoutProof, rawProofs, err := prepareDocAndProof(doc, opts...)
 	if err != nil {
 		return nil, fmt.Errorf("preparing doc failed: %w", err)
diff --git a/verifiable/credential.go b/verifiable/credential.go
index 7e0aa69..723302d 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -36,6 +36,7 @@ import (
 	"github.com/trustbloc/vc-go/jwt"
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
+	utiljsonld "github.com/trustbloc/vc-go/util/jsonld"
 	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 	"github.com/trustbloc/vc-go/verifiable/lddocument"
 )
@@ -1669,7 +1670,9 @@ func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *Credentia
 	return validateCredentialUsingJSONSchema(vcJSON, vcc, vcOpts)
 }
 
-func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
+func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) (err error) {
+	defer utiljsonld.Guard(&err)
+
 	baseContext, err := GetBaseContext(vcc.Context)
 	if err != nil {
 		return err
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index dd39873..5927a99 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -19,6 +19,7 @@ import (
 
 	"github.com/trustbloc/vc-go/dataintegrity"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
+	utiljsonld "github.com/trustbloc/vc-go/util/jsonld"
 )
 
 const (
@@ -961,7 +962,9 @@ func validateVP(data rawPresentation, opts *presentationOpts) error {
 	return validateVPJSONLD(data, opts)
 }
 
-func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) error {
+func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) (err error) {
+	defer utiljsonld.Guard(&err)
+
 	return docjsonld.ValidateJSONLDMap(vpBytes,
 		docjsonld.WithDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader),
 		docjsonld.WithExternalContext(opts.jsonldCredentialOpts.externalContext),
-- 
2.43.0


From 1673280d2ef68804698a0899484f34ffdaf1178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 24/70] fix: a minimized COSE presentation must keep its holder
 and id

---
 verifiable/presentation_parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index f805d09..d8e0822 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -11,6 +11,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
 
 	"github.com/fxamacker/cbor/v2"
 	"github.com/samber/lo"
@@ -154,8 +155,13 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 	convertedMap := convertToStringMap(vpMap)
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
-	if !ok {
-		// do nothing
+	if ok {
+		// Apply VP-related claims, a minimized presentation has its holder and id there only.
+		vpContent = maps.Clone(vpContent)
+		presClaims := &JWTPresClaims{Claims: &jwt.Claims{}, Presentation: vpContent}
+		presClaims.Issuer, _ = convertedMap["iss"].(string) //nolint:errcheck
+		presClaims.ID, _ = convertedMap["jti"].(string)     //nolint:errcheck
+		presClaims.refineFromJWTClaims()
 	}
 
 	return &parsePresentationResponse{
-- 
2.43.0


From 1feaaade162670dd3b9b5f2c470b3ac828c5080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 25/70] fix: reading a store's configuration must hold the
 in-memory provider's lock

---
 legacy/mem/mem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index bbdad0e..395d042 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -97,6 +97,9 @@ func (p *Provider) SetStoreConfig(name string, config spi.StoreConfiguration) er
 func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {
 	storeName := strings.ToLower(name)
 
+	p.lock.RLock()
+	defer p.lock.RUnlock()
+
 	store := p.dbs[storeName]
 	if store == nil {
 		return spi.StoreConfiguration{}, spi.ErrStoreNotFound
-- 
2.43.0


From 324eff61cb586cc296d44cf6d1ad30b20d6bc55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 26/70] fix: closing an old handle must not remove the
 in-memory store opened anew under its name

---
 legacy/mem/mem.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 395d042..f00318a 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -36,7 +36,7 @@ type Provider struct {
 	lock sync.RWMutex
 }
 
-type closer func(storeName string)
+type closer func(store *memStore)
 
 // NewProvider instantiates a new in-memory storage Provider.
 func NewProvider() *Provider {
@@ -141,13 +141,13 @@ func (p *Provider) Ping() error {
 	return nil
 }
 
-func (p *Provider) removeStore(name string) {
+// removeStore removes the given store, unless another one was opened under its name in the meantime.
+func (p *Provider) removeStore(store *memStore) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
-	_, ok := p.dbs[name]
-	if ok {
-		delete(p.dbs, name)
+	if p.dbs[store.name] == store {
+		delete(p.dbs, store.name)
 	}
 }
 
@@ -355,7 +355,7 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 
 // Close closes this store object. All data within the store is deleted.
 func (m *memStore) Close() error {
-	m.close(m.name)
+	m.close(m)
 
 	return nil
 }
-- 
2.43.0


From 7b57cca8db89613cd4873ec7e281daebbe0102ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 27/70] fix: a batch of the in-memory store must refuse the
 tags a put refuses

---
 legacy/mem/mem.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index f00318a..bee3748 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -174,14 +174,8 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 		return errors.New("value cannot be nil")
 	}
 
-	for _, tag := range tags {
-		if strings.Contains(tag.Name, ":") {
-			return fmt.Errorf(invalidTagName, tag.Name)
-		}
-
-		if strings.Contains(tag.Value, ":") {
-			return fmt.Errorf(invalidTagValue, tag.Value)
-		}
+	if err := checkTags(tags); err != nil {
+		return err
 	}
 
 	m.Lock()
@@ -336,6 +330,14 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 		if operation.Key == "" {
 			return errEmptyKey
 		}
+
+		if operation.Value == nil {
+			continue
+		}
+
+		if err := checkTags(operation.Tags); err != nil {
+			return err
+		}
 	}
 
 	for _, operation := range operations {
@@ -365,6 +367,20 @@ func (m *memStore) Flush() error {
 	return nil
 }
 
+func checkTags(tags []spi.Tag) error {
+	for _, tag := range tags {
+		if strings.Contains(tag.Name, ":") {
+			return fmt.Errorf(invalidTagName, tag.Name)
+		}
+
+		if strings.Contains(tag.Value, ":") {
+			return fmt.Errorf(invalidTagValue, tag.Value)
+		}
+	}
+
+	return nil
+}
+
 func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]string, []dbEntry) {
 	var matchAnyValue bool
 	if tagValue == "" {
-- 
2.43.0


From c1bcf724f593c8c1b4e4a351909ea40aa7378340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 28/70] fix: the in-memory store must keep its own copies of
 what it stores

---
 legacy/mem/mem.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index bee3748..a39a2cb 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -7,8 +7,10 @@ SPDX-License-Identifier: Apache-2.0
 package mem
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
+	"slices"
 	"strings"
 	"sync"
 
@@ -86,7 +88,7 @@ func (p *Provider) SetStoreConfig(name string, config spi.StoreConfiguration) er
 		return spi.ErrStoreNotFound
 	}
 
-	store.config = config
+	store.config = spi.StoreConfiguration{TagNames: slices.Clone(config.TagNames)}
 
 	return nil
 }
@@ -105,7 +107,7 @@ func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {
 		return spi.StoreConfiguration{}, spi.ErrStoreNotFound
 	}
 
-	return store.config, nil
+	return spi.StoreConfiguration{TagNames: slices.Clone(store.config.TagNames)}, nil
 }
 
 // GetOpenStores returns all currently open stores.
@@ -181,8 +183,8 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 	m.Lock()
 	defer m.Unlock()
 	m.db[key] = dbEntry{
-		value: value,
-		tags:  tags,
+		value: bytes.Clone(value),
+		tags:  slices.Clone(tags),
 	}
 
 	return nil
@@ -204,7 +206,7 @@ func (m *memStore) Get(key string) ([]byte, error) {
 		return nil, spi.ErrDataNotFound
 	}
 
-	return entry.value, nil
+	return bytes.Clone(entry.value), nil
 }
 
 // Get fetches all tags associated with the given key.
@@ -223,7 +225,7 @@ func (m *memStore) GetTags(key string) ([]spi.Tag, error) {
 		return nil, spi.ErrDataNotFound
 	}
 
-	return entry.tags, nil
+	return slices.Clone(entry.tags), nil
 }
 
 // GetBulk fetches the values associated with the given keys.
@@ -246,7 +248,7 @@ func (m *memStore) GetBulk(keys ...string) ([][]byte, error) {
 	defer m.RUnlock()
 
 	for i, key := range keys {
-		values[i] = m.db[key].value
+		values[i] = bytes.Clone(m.db[key].value)
 	}
 
 	return values, nil
@@ -347,8 +349,8 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 		}
 
 		m.db[operation.Key] = dbEntry{
-			value: operation.Value,
-			tags:  operation.Tags,
+			value: bytes.Clone(operation.Value),
+			tags:  slices.Clone(operation.Tags),
 		}
 	}
 
@@ -446,7 +448,7 @@ func (m *memIterator) Value() ([]byte, error) {
 		return nil, errIteratorExhausted
 	}
 
-	return m.currentDBEntry.value, nil
+	return bytes.Clone(m.currentDBEntry.value), nil
 }
 
 // Tags returns the tags associated with the key of the current entry.
@@ -455,7 +457,7 @@ func (m *memIterator) Tags() ([]spi.Tag, error) {
 		return nil, errIteratorExhausted
 	}
 
-	return m.currentDBEntry.tags, nil
+	return slices.Clone(m.currentDBEntry.tags), nil
 }
 
 func (m *memIterator) TotalItems() (int, error) {
-- 
2.43.0


From e6eea06daa225f21da7498fbea8625ce2c179aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 29/70] fix: an in-memory query must be one atomic step and
 honour every criterion

---
 legacy/mem/mem.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index a39a2cb..1700fb8 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -276,7 +276,11 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 		return nil, errInvalidQueryExpressionFormat
 	}
 
-	queryResults := make(map[string]*queryResult)
+	var queryResults []*queryResult
+
+	// all the criteria have to be evaluated on one state of the store.
+	m.RLock()
+	defer m.RUnlock()
 
 	for _, exp := range strings.Split(expression, "&&") {
 		expressionSplit := strings.Split(exp, ":")
@@ -286,14 +290,14 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, "")
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults = append(queryResults, &queryResult{keys: keys, dbEntries: dbEntries})
 		case expressionTagNameAndValueLength:
 			expressionTagName := expressionSplit[0]
 			expressionTagValue := expressionSplit[1]
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, expressionTagValue)
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults = append(queryResults, &queryResult{keys: keys, dbEntries: dbEntries})
 		default:
 			return nil, errInvalidQueryExpressionFormat
 		}
@@ -383,6 +387,7 @@ func checkTags(tags []spi.Tag) error {
 	return nil
 }
 
+// getMatchingKeysAndDBEntries must be called with the store's lock held.
 func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]string, []dbEntry) {
 	var matchAnyValue bool
 	if tagValue == "" {
@@ -393,9 +398,6 @@ func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]stri
 
 	var dbEntries []dbEntry
 
-	m.RLock()
-	defer m.RUnlock()
-
 	for key, dbEntry := range m.db {
 		for _, tag := range dbEntry.tags {
 			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {
@@ -495,7 +497,7 @@ func checkForUnsupportedQueryOptions(options []spi.QueryOption) error {
 }
 
 // commonDBEntries returns the DB entries that appear in all the query results.
-func commonDBEntries(results map[string]*queryResult) ([]string, []dbEntry) {
+func commonDBEntries(results []*queryResult) ([]string, []dbEntry) {
 	numTags := len(results)
 	keyMap := make(map[string]int)
 	valueMap := make(map[string]dbEntry)
-- 
2.43.0


From f76ce03ead2d87ea440681ca94f959221e291c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 30/70] fix: limited disclosure must select what the
 definition's paths select, and nothing else

---
 presexch/definition.go | 495 ++++++++++++++++++++++++++++++++---------
 1 file changed, 392 insertions(+), 103 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6b3b4f5..cf9235a 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -8,16 +8,15 @@ package presexch
 
 import (
 	"bytes"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"sort"
-	"strconv"
 	"strings"
 	"time"
 
 	"github.com/google/uuid"
-	jsonpathkeys "github.com/kawamuray/jsonpath"
 	"github.com/piprate/json-gold/ld"
 	"github.com/samber/lo"
 	"github.com/tidwall/gjson"
@@ -31,6 +30,7 @@ import (
 	"github.com/trustbloc/vc-go/verifiable"
 
 	pathv2 "github.com/theory/jsonpath"
+	"github.com/theory/jsonpath/spec"
 )
 
 const (
@@ -1130,8 +1130,6 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 
 // nolint: gocyclo,funlen,gocognit
 func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credential *verifiable.Credential) ([]*common.DisclosureClaim, error) { // nolint:lll
-	credentialContents := credential.Contents()
-
 	credentialSrc, err := credential.MarshalAsJSONLD()
 	if err != nil {
 		return nil, err
@@ -1139,61 +1137,192 @@ func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credenti
 
 	var limitedDisclosures []*common.DisclosureClaim
 
-	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, displaySrc)
-		if err != nil {
+	var signed map[string]interface{}
+
+	err = json.Unmarshal(credentialSrc, &signed)
+	if err != nil {
+		return nil, err
+	}
+
+	selected, err := selectFields(constraints.Fields, displaySrc, credential.IsJWT())
+	if err != nil {
+		return nil, err
+	}
+
+	selector := &disclosureSelector{
+		byDigest: map[string]*common.DisclosureClaim{},
+		selected: map[*common.DisclosureClaim]bool{},
+	}
+
+	for _, dc := range credential.SDJWTDisclosures() {
+		selector.byDigest[dc.Digest] = dc
+	}
+
+	for _, path := range lo.Flatten(selected) {
+		if path.within(credentialSchema) {
+			continue
+		}
+
+		if err = selector.selectValue(signed, path.oldPath); err != nil {
 			return nil, err
 		}
+	}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
+	for _, dc := range credential.SDJWTDisclosures() {
+		if selector.selected[dc] {
+			limitedDisclosures = append(limitedDisclosures, dc)
+		}
+	}
+
+	return limitedDisclosures, nil
+}
+
+// disclosureSelector collects the disclosures that are needed to disclose values.
+type disclosureSelector struct {
+	byDigest map[string]*common.DisclosureClaim
+	selected map[*common.DisclosureClaim]bool
+}
+
+// selectValue selects the disclosures of the value at the given position, of the values that contain it and of those it
+// contains.
+func (s *disclosureSelector) selectValue(node any, path []any) error {
+	if len(path) == 0 {
+		return s.selectAll(node)
+	}
+
+	switch key := path[0].(type) {
+	case string:
+		obj, ok := node.(map[string]interface{})
+		if !ok {
+			return nil
+		}
+
+		if value, ok := obj[key]; ok {
+			return s.selectValue(value, path[1:])
+		}
+
+		for _, dc := range s.members(obj) {
+			if dc.Name == key {
+				return s.follow(dc, path[1:])
 			}
+		}
+	case int:
+		arr, ok := node.([]interface{})
+		if !ok {
+			return nil
+		}
 
-			parentPath, key := splitLast(path.oldPath, ".")
+		index := 0
 
-			parentObj, ok := gjson.GetBytes(credentialSrc, parentPath).Value().(map[string]interface{})
-			if !ok {
-				// no selective disclosures at this level, so nothing to add to limited disclosures
+		for _, element := range arr {
+			dc, hidden := s.element(element)
+			if hidden && dc == nil {
+				continue // not there, or a decoy
+			}
+
+			if index != key {
+				index++
 				continue
 			}
 
-			digests, err := common.GetDisclosureDigests(parentObj)
-			if err != nil {
-				return nil, err
+			if hidden {
+				return s.follow(dc, path[1:])
 			}
 
-			disclosures := credential.SDJWTDisclosures()
-			disclosuresMap := map[string]*common.DisclosureClaim{}
+			return s.selectValue(element, path[1:])
+		}
+	}
 
-			for _, dc := range disclosures {
-				disclosuresMap[dc.Digest] = dc
-			}
+	return nil
+}
 
-			arrayElements := ExtractArrayValuesForSDJWTV5(parentObj)
-			for _, elem := range arrayElements {
-				dis, disOk := disclosuresMap[elem]
-				if disOk {
-					limitedDisclosures = append(limitedDisclosures, dis)
-				}
+func (s *disclosureSelector) selectAll(node any) error {
+	switch value := node.(type) {
+	case map[string]interface{}:
+		for _, dc := range s.members(value) {
+			if err := s.follow(dc, nil); err != nil {
+				return err
 			}
+		}
 
-			for _, dc := range disclosures {
-				if dc.Name == key {
-					digest, err := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
-					if err != nil {
-						return nil, err
-					}
+		for _, member := range value {
+			if err := s.selectAll(member); err != nil {
+				return err
+			}
+		}
+	case []interface{}:
+		for _, element := range value {
+			if dc, hidden := s.element(element); hidden {
+				if dc == nil {
+					continue
+				}
 
-					if _, ok := digests[digest]; ok {
-						limitedDisclosures = append(limitedDisclosures, dc)
-					}
+				if err := s.follow(dc, nil); err != nil {
+					return err
 				}
+
+				continue
+			}
+
+			if err := s.selectAll(element); err != nil {
+				return err
 			}
 		}
 	}
 
-	return limitedDisclosures, nil
+	return nil
+}
+
+// follow selects a disclosure and what is needed of its value.
+func (s *disclosureSelector) follow(dc *common.DisclosureClaim, path []any) error {
+	s.selected[dc] = true
+
+	decoded, err := base64.RawURLEncoding.DecodeString(dc.Disclosure)
+	if err != nil {
+		return fmt.Errorf("decode disclosure: %w", err)
+	}
+
+	var elements []any
+
+	// the value as it was hashed, the parsed one does not have its digests any more
+	if err = json.Unmarshal(decoded, &elements); err != nil {
+		return fmt.Errorf("unmarshal disclosure: %w", err)
+	}
+
+	if len(elements) == 0 {
+		return nil
+	}
+
+	return s.selectValue(elements[len(elements)-1], path)
+}
+
+// members lists the disclosures of members of an object.
+func (s *disclosureSelector) members(obj map[string]interface{}) []*common.DisclosureClaim {
+	var out []*common.DisclosureClaim
+
+	digests, _ := obj[common.SDKey].([]interface{}) //nolint:errcheck
+	for _, d := range digests {
+		if digest, ok := d.(string); ok && s.byDigest[digest] != nil {
+			out = append(out, s.byDigest[digest])
+		}
+	}
+
+	return out
+}
+
+// element tells whether an element of an array is hidden, and which disclosure discloses it.
+func (s *disclosureSelector) element(element any) (*common.DisclosureClaim, bool) {
+	obj, ok := element.(map[string]interface{})
+	if !ok || len(obj) != 1 {
+		return nil, false
+	}
+
+	digest, ok := obj[common.ArrayElementDigestKey].(string)
+	if !ok {
+		return nil, false
+	}
+
+	return s.byDigest[digest], true
 }
 
 // ExtractArrayValuesForSDJWTV5 extracts array values for SD JWT V5.
@@ -1273,37 +1402,55 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		explicitPaths       = make(map[string]bool)
 	)
 
-	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, src)
-		if err != nil {
-			return nil, err
-		}
+	selected, err := selectFields(constraints.Fields, src, credential.IsJWT())
+	if err != nil {
+		return nil, err
+	}
+
+	srcObj, err := decodeJSON(src)
+	if err != nil {
+		return nil, err
+	}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
+	limitedObj, err := decodeJSON(limitedCred)
+	if err != nil {
+		return nil, err
+	}
+
+	for i, f := range constraints.Fields {
+		for _, path := range selected[i] {
+			if path.within(credentialSchema) {
 				continue
 			}
 
+			// only a credential made anew lacks the array elements that are not selected
+			target := path.oldPath
+			if constraints.LimitDisclosure.isRequired() {
+				target = path.newPath
+			}
+
 			var val interface{} = true
 
 			if f.Predicate.isRequired() {
 				modifiedByPredicate = true
 			} else {
-				val = gjson.GetBytes(src, path.oldPath).Value()
+				val = cloneJSON(valueAt(srcObj, path.oldPath))
 			}
 
 			if doBBS {
-				explicitPath, _ := splitLast(path.newPath, ".")
+				explicitPath, _ := splitLast(joinPath(target), ".")
 				explicitPaths[explicitPath] = true
 			}
 
-			limitedCred, err = sjson.SetBytes(limitedCred, path.newPath, val)
-			if err != nil {
-				return nil, err
-			}
+			limitedObj = setValueAt(limitedObj, target, val)
 		}
 	}
 
+	limitedCred, err = json.Marshal(limitedObj)
+	if err != nil {
+		return nil, err
+	}
+
 	if !doBBS || modifiedByPredicate {
 		opts = append(opts, verifiable.WithDisabledProofCheck())
 		return verifiable.ParseCredential(limitedCred, opts...)
@@ -1333,34 +1480,186 @@ func splitLast(text, split string) (string, string) {
 	return text[:lastIndex], text[lastIndex+len(split):]
 }
 
-// compactArrayPaths adjusts array indices in the given JSON paths, as if the corresponding JSON object has all
-// unmentioned array elements removed. Input paths are in JSONPath syntax, while output paths are in dot-separated
-// syntax, eg, `foo.1.bar.3`.
-func compactArrayPaths(keys []string, src []byte) ([]*pathTransform, error) {
-	paths, err := jsonpathkeys.ParsePaths(keys...)
-	if err != nil {
+// selectFields evaluates the paths of every field on the given credential, the same way as they are evaluated when
+// credentials are matched. For every selected value it gives its position in the credential, and its position in a
+// credential that has only the selected elements of arrays.
+func selectFields(fields []*Field, src []byte, isJWTCredential bool) ([][]*pathTransform, error) {
+	var credential map[string]any
+
+	if err := json.Unmarshal(src, &credential); err != nil {
 		return nil, err
 	}
 
-	eval, err := jsonpathkeys.EvalPathsInReader(bytes.NewReader(src), paths)
-	if err != nil {
+	selected := make([][]*pathTransform, len(fields))
+	whole := make(map[string]bool)
+
+	for i, field := range fields {
+		for _, path := range field.Path {
+			parsed, _, err := parseFieldPath(isJWTCredential, path, credential)
+			if err != nil {
+				continue // the field was matched by another of its paths
+			}
+
+			for node := range parsed.SelectLocated(credential).All() {
+				transform := &pathTransform{oldPath: make([]any, len(node.Path))}
+
+				for k, element := range node.Path {
+					switch e := element.(type) {
+					case spec.Name:
+						transform.oldPath[k] = string(e)
+					case spec.Index:
+						transform.oldPath[k] = int(e)
+					}
+				}
+
+				selected[i] = append(selected[i], transform)
+				whole[pathKey(transform.oldPath)] = true
+			}
+		}
+	}
+
+	compactArrayPaths(lo.Flatten(selected), whole)
+
+	return selected, nil
+}
+
+// compactArrayPaths sets the new positions of all values, as if the elements of arrays that contain none of them were
+// removed. Positions inside of values that are selected as a whole do not change.
+func compactArrayPaths(selected []*pathTransform, whole map[string]bool) {
+	indices := map[string][]int{}
+
+	visit := func(path []any, f func(array string, i, index int)) {
+		for i, k := range path {
+			if whole[pathKey(path[:i])] {
+				return
+			}
+
+			if index, ok := k.(int); ok {
+				f(pathKey(path[:i]), i, index)
+			}
+		}
+	}
+
+	for _, transform := range selected {
+		visit(transform.oldPath, func(array string, _, index int) {
+			if !lo.Contains(indices[array], index) {
+				indices[array] = append(indices[array], index)
+			}
+		})
+	}
+
+	for _, list := range indices {
+		sort.Ints(list)
+	}
+
+	for _, transform := range selected {
+		transform.newPath = append([]any{}, transform.oldPath...)
+
+		visit(transform.oldPath, func(array string, i, index int) {
+			transform.newPath[i] = lo.IndexOf(indices[array], index)
+		})
+	}
+}
+
+// pathKey identifies a position.
+func pathKey(path []any) string {
+	return fmt.Sprintf("%#v", path)
+}
+
+// joinPath gives the position in dot-separated syntax, eg, `foo.1.bar.3`.
+func joinPath(path []any) string {
+	parts := make([]string, len(path))
+	for i, k := range path {
+		parts[i] = fmt.Sprint(k)
+	}
+
+	return strings.Join(parts, ".")
+}
+
+// decodeJSON decodes a JSON value and keeps numbers as they are.
+func decodeJSON(src []byte) (any, error) {
+	decoder := json.NewDecoder(bytes.NewReader(src))
+	decoder.UseNumber()
+
+	var value any
+
+	if err := decoder.Decode(&value); err != nil {
 		return nil, err
 	}
 
-	var jPaths []*pathTransform
+	return value, nil
+}
 
-	set := map[string]int{}
+func cloneJSON(value any) any {
+	switch v := value.(type) {
+	case map[string]any:
+		out := make(map[string]any, len(v))
+		for k, e := range v {
+			out[k] = cloneJSON(e)
+		}
 
-	for {
-		result, ok := eval.Next()
+		return out
+	case []any:
+		out := make([]any, len(v))
+		for i, e := range v {
+			out[i] = cloneJSON(e)
+		}
+
+		return out
+	default:
+		return value
+	}
+}
+
+func valueAt(value any, path []any) any {
+	for _, k := range path {
+		switch key := k.(type) {
+		case string:
+			obj, _ := value.(map[string]any) //nolint:errcheck
+			value = obj[key]
+		case int:
+			arr, ok := value.([]any)
+			if !ok || key >= len(arr) {
+				return nil
+			}
+
+			value = arr[key]
+		}
+	}
+
+	return value
+}
+
+// setValueAt returns the given value with the one at the given position replaced, and with the objects and arrays that
+// lead there.
+func setValueAt(value any, path []any, newValue any) any {
+	if len(path) == 0 {
+		return newValue
+	}
+
+	switch key := path[0].(type) {
+	case string:
+		obj, ok := value.(map[string]any)
 		if !ok {
-			break
+			obj = map[string]any{}
 		}
 
-		jPaths = append(jPaths, getPath(result.Keys, set))
+		obj[key] = setValueAt(obj[key], path[1:], newValue)
+
+		return obj
+	case int:
+		arr, _ := value.([]any) //nolint:errcheck
+
+		for len(arr) <= key {
+			arr = append(arr, nil)
+		}
+
+		arr[key] = setValueAt(arr[key], path[1:], newValue)
+
+		return arr
 	}
 
-	return jPaths, nil
+	return value
 }
 
 func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
@@ -1509,14 +1808,10 @@ func convertToRFC9535Format(path string) string {
 	return builder.String()
 }
 
-//nolint:gocyclo,funlen
-func checkPathValue(
-	isJWTCredential bool,
-	path string,
-	credential map[string]any,
-	field *Field,
-	schema gojsonschema.JSONLoader,
-) error {
+// parseFieldPath parses a path of a constraints field, and returns it as it applies to the credential.
+//
+//nolint:gocyclo
+func parseFieldPath(isJWTCredential bool, path string, credential map[string]any) (*pathv2.Path, string, error) {
 	if isJWTCredential { // compatibility
 		replacements := map[string]string{
 			"$.vc.":   "$.",
@@ -1539,7 +1834,7 @@ func checkPathValue(
 	}
 
 	if !strings.HasPrefix(path, "$") && !strings.HasPrefix("@", path) {
-		return errors.New("expected $ or @ at start of path")
+		return nil, path, errors.New("expected $ or @ at start of path")
 	}
 
 	var pathParsed *pathv2.Path
@@ -1563,6 +1858,21 @@ func checkPathValue(
 		pathErr = errors.Join(pathErr, fmt.Errorf("path %s: %w", p, parseErr))
 	}
 
+	if pathErr != nil {
+		return nil, path, pathErr
+	}
+
+	return pathParsed, path, nil
+}
+
+func checkPathValue(
+	isJWTCredential bool,
+	path string,
+	credential map[string]any,
+	field *Field,
+	schema gojsonschema.JSONLoader,
+) error {
+	pathParsed, path, pathErr := parseFieldPath(isJWTCredential, path, credential)
 	if pathErr != nil {
 		return pathErr
 	}
@@ -1646,37 +1956,16 @@ func isDateField(paths []string) bool {
 	return false
 }
 
+// pathTransform holds the position of a value in a credential, and in a credential made of part of it. The elements of
+// both are names of members and indices of array elements.
 type pathTransform struct {
-	newPath string
-	oldPath string
+	newPath []any
+	oldPath []any
 }
 
-func getPath(keys []interface{}, set map[string]int) *pathTransform {
-	var (
-		newPath      []string
-		originalPath []string
-	)
-
-	for _, k := range keys {
-		switch v := k.(type) {
-		case int:
-			counterKey := strings.Join(originalPath, ".")
-			originalPath = append(originalPath, strconv.Itoa(v))
-			mapperKey := strings.Join(originalPath, ".")
-
-			if _, ok := set[mapperKey]; !ok {
-				set[mapperKey] = set[counterKey]
-				set[counterKey]++
-			}
-
-			newPath = append(newPath, strconv.Itoa(set[mapperKey]))
-		default:
-			originalPath = append(originalPath, fmt.Sprintf("%s", v))
-			newPath = append(newPath, fmt.Sprintf("%s", v))
-		}
-	}
-
-	return &pathTransform{newPath: strings.Join(newPath, "."), oldPath: strings.Join(originalPath, ".")}
+// within tells whether the value is the member of the given name, or inside of it.
+func (p *pathTransform) within(name string) bool {
+	return lo.Contains(p.oldPath, any(name))
 }
 
 //nolint:funlen
-- 
2.43.0


From 811628928a39357b1c0c54f9b32b201ff0d7eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 31/70] fix: limiting an SD-JWT's disclosures must not change
 the caller's credential

---
 presexch/definition.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/presexch/definition.go b/presexch/definition.go
index cf9235a..7c46f96 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1116,6 +1116,16 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 				return nil, err
 			}
 
+			// the wallet's credential keeps all of its disclosures
+			limitedCredential := *credential
+
+			if credential.JWTEnvelope != nil {
+				envelope := *credential.JWTEnvelope
+				limitedCredential.JWTEnvelope = &envelope
+			}
+
+			credential = &limitedCredential
+
 			err = credential.SetSDJWTDisclosures(limitedDisclosures)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From c605ad6dd44b65f89ef35bb3e212924cadeabc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 32/70] fix: credentials without an id and limited SD-JWTs must
 not be taken for one in a presentation

---
 presexch/definition.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 7c46f96..ec4b493 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1130,6 +1130,8 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 			if err != nil {
 				return nil, err
 			}
+
+			uniqueCredID = tmpID(credentialContents.ID)
 		}
 
 		result = append(result, &credWrapper{uniqueID: uniqueCredID, vc: credential})
@@ -2010,10 +2012,16 @@ func merge(
 		for _, credWrap := range credentials {
 			credential := credWrap.vc
 
-			if _, ok := setOfCreds[credWrap.uniqueID]; !ok {
+			// a credential without an id is the same as itself only
+			uniqueID := credWrap.uniqueID
+			if uniqueID == "" {
+				uniqueID = fmt.Sprintf("%p", credential)
+			}
+
+			if _, ok := setOfCreds[uniqueID]; !ok {
 				result = append(result, credential)
 
-				setOfCreds[credWrap.uniqueID] = len(result) - 1
+				setOfCreds[uniqueID] = len(result) - 1
 			}
 
 			vcFormat := FormatLDPVC
@@ -2031,11 +2039,11 @@ func merge(
 			}
 
 			if separatePresentations {
-				desc.Path = fmt.Sprintf("$[%d]", setOfCreds[credWrap.uniqueID])
+				desc.Path = fmt.Sprintf("$[%d]", setOfCreds[uniqueID])
 				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[0]", jwtVPPath)
 			} else {
 				desc.Path = "$"
-				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, setOfCreds[credWrap.uniqueID])
+				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, setOfCreds[uniqueID])
 			}
 
 			descriptors = append(descriptors, desc)
-- 
2.43.0


From 54e40490a2b3a2bc13a6c93efd9a0bfef36c309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 33/70] fix: constraints without fields must not rule out every
 credential

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index ec4b493..6099b81 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -962,7 +962,7 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			continue
 		}
 
-		var applicable bool
+		applicable := true
 
 		var err error
 
-- 
2.43.0


From d09a47c351364e8ece64a1c1c2e753161b8770a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 34/70] fix: a filter without a type must not panic

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6099b81..0d58965 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1770,7 +1770,7 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	if f.Filter != nil {
 		filter := *f.Filter
-		if *filter.Type == "string" && filter.Format == "date-time" {
+		if filter.Type != nil && *filter.Type == "string" && filter.Format == "date-time" {
 			if val, ok := filter.Minimum.(string); ok && val != "" {
 				if t, err := time.Parse(time.RFC3339, val); err == nil {
 					numFilterType := "number"
-- 
2.43.0


From 4941c17443998b42b737a719c8db08e0f618d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 35/70] fix: input descriptors with the same id must be
 refused, not panic

---
 presexch/definition.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 0d58965..5f620a1 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -299,7 +299,7 @@ func (pd *PresentationDefinition) ValidateSchema() error {
 	}
 
 	if result.Valid() {
-		return nil
+		return pd.validateDescriptorIDs()
 	}
 
 	resultErrors := result.Errors()
@@ -312,6 +312,20 @@ func (pd *PresentationDefinition) ValidateSchema() error {
 	return errors.New(strings.Join(errs, ","))
 }
 
+func (pd *PresentationDefinition) validateDescriptorIDs() error {
+	ids := make(map[string]struct{}, len(pd.InputDescriptors))
+
+	for _, descriptor := range pd.InputDescriptors {
+		if _, ok := ids[descriptor.ID]; ok {
+			return fmt.Errorf("presentation_definition: input descriptor id %q is not unique", descriptor.ID)
+		}
+
+		ids[descriptor.ID] = struct{}{}
+	}
+
+	return nil
+}
+
 type constraintsFilterResult struct {
 	credential    *verifiable.Credential
 	credentialSrc []byte
-- 
2.43.0


From 25b5421b073b7dc36c573c2462a8e752284b96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 36/70] fix: a descriptor must be tried with the credentials of
 each format it allows

---
 presexch/definition.go | 130 +++++++++++++++++++++++------------------
 1 file changed, 72 insertions(+), 58 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 5f620a1..7f6b6e7 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -700,27 +700,29 @@ func (pd *PresentationDefinition) matchRequirement(req *requirement, creds []*ve
 			}
 		}
 
-		_, filtered, err := pd.filterCredentialsThatMatchDescriptor(
-			framedCreds, descriptor, documentLoader)
+		_, matched, err := pd.filterCredentialsThatMatchDescriptor(
+			framedCreds, descriptor, documentLoader,
+			func(filtered []constraintsFilterResult) ([]*credWrapper, error) {
+				if opts.applySelectiveDisclosure {
+					return limitDisclosure(filtered, opts.sdBBSProofCreator, opts.credOpts...)
+				}
+
+				var whole []*credWrapper
+
+				for _, credRes := range filtered {
+					whole = append(whole, &credWrapper{vc: credRes.credential})
+				}
+
+				return whole, nil
+			})
 		if err != nil {
 			return nil, err
 		}
 
 		var matchedVCs []*verifiable.Credential
 
-		if opts.applySelectiveDisclosure {
-			limitedVCs, err := limitDisclosure(filtered, opts.sdBBSProofCreator, opts.credOpts...)
-			if err != nil {
-				return nil, err
-			}
-
-			for _, cred := range limitedVCs {
-				matchedVCs = append(matchedVCs, cred.vc)
-			}
-		} else {
-			for _, credRes := range filtered {
-				matchedVCs = append(matchedVCs, credRes.credential)
-			}
+		for _, cred := range matched {
+			matchedVCs = append(matchedVCs, cred.vc)
 		}
 
 		matchedReq.Descriptors = append(matchedReq.Descriptors, &MatchedInputDescriptor{
@@ -799,13 +801,11 @@ func (pd *PresentationDefinition) applyRequirement( // nolint:funlen,gocyclo
 
 			descriptor := descs[descID]
 
-			descFormat, filtered, err := pd.filterCredentialsThatMatchDescriptor(
-				framedCreds, descriptor, documentLoader)
-			if err != nil {
-				return "", nil, err
-			}
-
-			filteredCreds, err := limitDisclosure(filtered, sdBBSProofCreator, opts...)
+			descFormat, filteredCreds, err := pd.filterCredentialsThatMatchDescriptor(
+				framedCreds, descriptor, documentLoader,
+				func(filtered []constraintsFilterResult) ([]*credWrapper, error) {
+					return limitDisclosure(filtered, sdBBSProofCreator, opts...)
+				})
 			if err != nil {
 				return "", nil, err
 			}
@@ -852,38 +852,53 @@ type descriptorMatch struct {
 	creds  []*credWrapper
 }
 
+// filterCredentialsThatMatchDescriptor returns the credentials of the first allowed format that has any that match the
+// descriptor, as what limit makes of them.
 func (pd *PresentationDefinition) filterCredentialsThatMatchDescriptor(
 	creds []*verifiable.Credential,
 	descriptor *InputDescriptor,
 	documentLoader ld.DocumentLoader,
-) (string, []constraintsFilterResult, error) {
+	limit func([]constraintsFilterResult) ([]*credWrapper, error),
+) (string, []*credWrapper, error) {
 	format := pd.Format
 	if descriptor.Format.notNil() {
 		format = descriptor.Format
 	}
 
-	vpFormat := ""
-	filtered := creds
+	candidates := []formatCredentials{{credentials: creds}}
 
 	if format.notNil() {
-		vpFormat, filtered = filterFormat(format, filtered)
+		candidates = filterFormat(format, creds)
 	}
 
-	var err error
-	// Validate schema only for v1
-	if descriptor.Schema != nil {
-		filtered, err = filterSchema(descriptor.Schema, filtered, documentLoader)
+	for _, candidate := range candidates {
+		filtered := candidate.credentials
+
+		var err error
+		// Validate schema only for v1
+		if descriptor.Schema != nil {
+			filtered, err = filterSchema(descriptor.Schema, filtered, documentLoader)
+			if err != nil {
+				return "", nil, err
+			}
+		}
+
+		filteredByConstraints, _, err := filterConstraints(descriptor.Constraints, filtered)
 		if err != nil {
 			return "", nil, err
 		}
-	}
 
-	filteredByConstraints, _, err := filterConstraints(descriptor.Constraints, filtered)
-	if err != nil {
-		return "", nil, err
+		limited, err := limit(filteredByConstraints)
+		if err != nil {
+			return "", nil, err
+		}
+
+		if len(limited) > 0 {
+			return candidate.format, limited, nil
+		}
 	}
 
-	return vpFormat, filteredByConstraints, nil
+	return "", nil, nil
 }
 
 func getSubjectIDs(subject interface{}) []string { // nolint: gocyclo
@@ -2075,8 +2090,16 @@ func (a byID) Len() int           { return len(a) }
 func (a byID) Less(i, j int) bool { return a[i].ID < a[j].ID }
 func (a byID) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 
+// formatCredentials are the credentials that are of one of the allowed formats.
+type formatCredentials struct {
+	format      string
+	credentials []*verifiable.Credential
+}
+
+// filterFormat returns the credentials of each format, in order of preference.
+//
 //nolint:funlen,gocyclo
-func filterFormat(format *Format, credentials []*verifiable.Credential) (string, []*verifiable.Credential) {
+func filterFormat(format *Format, credentials []*verifiable.Credential) []formatCredentials {
 	var ldpCreds, ldpvcCreds, ldpvpCreds, jwtCreds, jwtvcCreds, jwtvpCreds []*verifiable.Credential
 
 	for _, credential := range credentials {
@@ -2114,31 +2137,22 @@ func filterFormat(format *Format, credentials []*verifiable.Credential) (string,
 		}
 	}
 
-	if len(ldpCreds) > 0 {
-		return FormatLDP, ldpCreds
-	}
-
-	if len(ldpvcCreds) > 0 {
-		return FormatLDPVC, ldpvcCreds
-	}
+	var result []formatCredentials
 
-	if len(ldpvpCreds) > 0 {
-		return FormatLDPVP, ldpvpCreds
-	}
-
-	if len(jwtCreds) > 0 {
-		return FormatJWT, jwtCreds
-	}
-
-	if len(jwtvcCreds) > 0 {
-		return FormatJWTVC, jwtvcCreds
-	}
-
-	if len(jwtvpCreds) > 0 {
-		return FormatJWTVP, jwtvpCreds
+	for _, candidate := range []formatCredentials{
+		{FormatLDP, ldpCreds},
+		{FormatLDPVC, ldpvcCreds},
+		{FormatLDPVP, ldpvpCreds},
+		{FormatJWT, jwtCreds},
+		{FormatJWTVC, jwtvcCreds},
+		{FormatJWTVP, jwtvpCreds},
+	} {
+		if len(candidate.credentials) > 0 {
+			result = append(result, candidate)
+		}
 	}
 
-	return "", nil
+	return result
 }
 
 func algMatch(credAlg string, jwtType *JwtType) bool {
-- 
2.43.0


From 1bb79d0682fa1ae95952d4a7e1eecf706128e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 37/70] fix: limiting the disclosure of a credential without an
 id must not fail

---
 util/json/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/json/json.go b/util/json/json.go
index 5b830d8..30edadc 100644
--- a/util/json/json.go
+++ b/util/json/json.go
@@ -132,7 +132,9 @@ func Select(json map[string]interface{}, flds ...string) map[string]interface{}
 	newJSON := map[string]interface{}{}
 
 	for _, fld := range flds {
-		newJSON[fld] = json[fld]
+		if value, ok := json[fld]; ok {
+			newJSON[fld] = value
+		}
 	}
 
 	return newJSON
-- 
2.43.0


From a4de77fd1b091621006d2409ae1e30970a5514df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 38/70] fix: limiting a credential's disclosure must not write
 to the caller's options

---
 presexch/definition.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 7f6b6e7..0647b59 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1493,8 +1493,10 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	}
 
 	if !doBBS || modifiedByPredicate {
-		opts = append(opts, verifiable.WithDisabledProofCheck())
-		return verifiable.ParseCredential(limitedCred, opts...)
+		limitedOpts := append([]verifiable.CredentialOpt{}, opts...)
+		limitedOpts = append(limitedOpts, verifiable.WithDisabledProofCheck())
+
+		return verifiable.ParseCredential(limitedCred, limitedOpts...)
 	}
 
 	revealDoc, err := enhanceRevealDoc(explicitPaths, limitedCred, src)
-- 
2.43.0


From 4faa62951ae219070be82d44f334aa7ace783afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 39/70] fix: a descriptor without schemas must not be refused
 by Match

---
 presexch/api.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 9d8031a..e7d2219 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -220,9 +220,14 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 			var fltErr error
 
-			passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
-			if fltErr != nil {
-				return nil, err
+			// Only V1 descriptors have schemas: a descriptor without any accepts credentials of every type.
+			passed := []*verifiable.Credential{vc}
+
+			if inputDescriptor.Schema != nil {
+				passed, fltErr = filterSchema(inputDescriptor.Schema, passed, contextLoader)
+				if fltErr != nil {
+					return nil, fltErr
+				}
 			}
 
 			if len(passed) == 0 && !opts.DisableSchemaValidation {
-- 
2.43.0


From 0b21c60e4a7dc0fdf2150e2b2b792fd5930c3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 40/70] fix: a null entry of a descriptor map must not crash
 Match

---
 presexch/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index e7d2219..25cb3e5 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -191,6 +191,10 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		}
 
 		for _, mapping := range descriptorMap {
+			if mapping == nil {
+				return nil, fmt.Errorf("'%s' must not have null entries", descriptorMapProperty)
+			}
+
 			// The object MUST include an id property, and its value MUST be a string matching the id property of
 			// the Input Descriptor in the Presentation Definition the submission is related to.
 			if _, ok := descriptorIDs[mapping.ID]; !ok {
-- 
2.43.0


From 013dc7ba798f55d6f16a11332319fac8fea477d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 41/70] fix: Match must only accept credentials that are part
 of the presentation

---
 presexch/api.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 25cb3e5..6532ef5 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -11,6 +11,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"reflect"
 	"strconv"
 	"strings"
 
@@ -209,9 +210,9 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 			)
 
 			if descriptorMappingExpectsVPList(mapping) {
-				vc, selectErr = selectVC(rawVPs, mapping, opts)
+				vc, selectErr = selectVC(rawVPs, typelessVP, mapping, opts)
 			} else if len(vpList) == 1 || !useMergedSubmission {
-				vc, selectErr = selectVC(typelessVP, mapping, opts)
+				vc, selectErr = selectVC(typelessVP, typelessVP, mapping, opts)
 			} else {
 				return nil, errors.New("presentation submission has invalid path for matching a list of presentations")
 			}
@@ -263,7 +264,9 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 	return result, nil
 }
 
-func selectVC(typelessVerifiable interface{},
+// selectVC selects the credential a mapping points to, which must be a part of the given presentation: a path is an
+// expression chosen by the holder, and may as well evaluate to a literal or to a part of another presentation.
+func selectVC(typelessVerifiable, presentation interface{},
 	mapping *InputDescriptorMapping, opts *MatchOptions) (*verifiable.Credential, error) {
 	builder := gval.Full(jsonpath.PlaceholderExtension())
 
@@ -290,6 +293,11 @@ func selectVC(typelessVerifiable interface{},
 			continue
 		}
 
+		if !isPartOf(presentation, typelessVerifiable) {
+			return nil, fmt.Errorf("failed to select vc from submission: path [%s] does not select a part of the presentation",
+				mapping.Path)
+		}
+
 		var credBits []byte
 
 		credBits, err = json.Marshal(typelessVerifiable)
@@ -308,6 +316,30 @@ func selectVC(typelessVerifiable interface{},
 	return vc, nil
 }
 
+// isPartOf tells whether the value is the document or appears anywhere in it.
+func isPartOf(document, value interface{}) bool {
+	if reflect.DeepEqual(document, value) {
+		return true
+	}
+
+	switch doc := document.(type) {
+	case map[string]interface{}:
+		for _, member := range doc {
+			if isPartOf(member, value) {
+				return true
+			}
+		}
+	case []interface{}:
+		for _, item := range doc {
+			if isPartOf(item, value) {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 // Ensures the matched credentials meet the submission requirements.
 func (pd *PresentationDefinition) evalSubmissionRequirements(matched []*MatchValue) error {
 	// TODO support submission requirement rules: https://github.com/hyperledger/aries-framework-go/issues/2109
-- 
2.43.0


From ed19e7faf347f9cfc3d65f166f1a872f3013f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 42/70] fix: Match must keep the numbers of credentials in JWT
 presentations

---
 presexch/api.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 6532ef5..7d80025 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -531,12 +531,19 @@ func stringsContain(s []string, val string) bool {
 func getTypelessVP(vp *verifiable.Presentation) (interface{}, error) {
 	switch {
 	case vp.IsJWT():
-		token, _, parseErr := jwt.Parse(vp.JWT)
+		_, payload, parseErr := jwt.Parse(vp.JWT)
 		if parseErr != nil {
 			return nil, fmt.Errorf("failed to parse vp.JWT: %w", parseErr)
 		}
 
-		return token.Payload, nil
+		// The numbers of token.Payload would become strings when a selected credential is marshalled.
+		typelessVP := interface{}(nil)
+
+		if err := json.Unmarshal(payload, &typelessVP); err != nil {
+			return nil, fmt.Errorf("failed to unmarshal vp.JWT: %w", err)
+		}
+
+		return typelessVP, nil
 	case vp.IsCWT():
 		return vp.CWT.VPMap, nil
 	default:
-- 
2.43.0


From 792f0ec90af9c609d95a29d4308cf7f86abe03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 43/70] fix: close the response body when fetching a related
 resource fails

---
 verifiable/related_resource.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 03fdae4..67d380f 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -81,6 +81,12 @@ func (r *RelatedResourceValidator) Fetch(targetURL string) (*CachedResource, err
 		return nil, errors.Join(err, fmt.Errorf("fetch related resource: %s", targetURL))
 	}
 
+	if resp.Body != nil {
+		defer func() {
+			_ = resp.Body.Close() // nolint:errcheck
+		}()
+	}
+
 	if resp.StatusCode != http.StatusOK {
 		return nil, errors.Join(fmt.Errorf("related resource fetch failed with status code: %d",
 			resp.StatusCode))
@@ -92,10 +98,6 @@ func (r *RelatedResourceValidator) Fetch(targetURL string) (*CachedResource, err
 
 	var data []byte
 
-	defer func() {
-		_ = resp.Body.Close() // nolint:errcheck
-	}()
-
 	data, err = io.ReadAll(resp.Body)
 	if err != nil {
 		return nil, errors.Join(err, fmt.Errorf("read related resource: %s", targetURL))
-- 
2.43.0


From 99009205c9c16a78a9a6375ac371fb04b2958dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 44/70] fix: the digest of a related resource may be a
 multihash in any encoding, and a short one must not panic

---
 verifiable/related_resource.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 67d380f..0dc6aa1 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -181,27 +181,33 @@ func (r *RelatedResourceValidator) validateHash(
 	res *RelatedResource,
 	cachedResource *CachedResource,
 ) error {
-	enc, decodedDigest, err := multibase.Decode(hash)
+	_, decodedDigest, err := multibase.Decode(hash)
 	if err != nil {
 		return errors.Join(err, fmt.Errorf("decode digest: %s", hash))
 	}
 
-	var rawHash []byte
+	var (
+		rawHash         []byte
+		multihashHeader []byte // code and length
+	)
 
 	switch strings.ToLower(hashAlgo) {
 	case "sha256":
 		rawHash = cachedResource.Sha256Hash
+		multihashHeader = []byte{0x12, 0x20}
 	case "sha384":
 		rawHash = cachedResource.Sha384Hash
+		multihashHeader = []byte{0x20, 0x30}
 	case "sha512":
 		rawHash = cachedResource.Sha512Hash
+		multihashHeader = []byte{0x13, 0x40}
 	default:
 		return fmt.Errorf("unsupported hash algorithm: %s", hashAlgo)
 	}
 
-	hasHeader := enc == multibase.Base64url && decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
-	if hasHeader { // skip header
-		decodedDigest = decodedDigest[2:]
+	if len(decodedDigest) == len(rawHash)+len(multihashHeader) &&
+		bytes.HasPrefix(decodedDigest, multihashHeader) { // skip header
+		decodedDigest = decodedDigest[len(multihashHeader):]
 	}
 
 	if !bytes.Equal(rawHash, decodedDigest) {
-- 
2.43.0


From afd94804c2da829d8201a583d0e6d296fce59de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 45/70] fix: check every digest a related resource has, and
 accept base64url digests with dashes

---
 verifiable/related_resource.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 0dc6aa1..d803d28 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -154,25 +154,26 @@ func (r *RelatedResourceValidator) validateSingleResource(
 	res *RelatedResource,
 	cachedResource *CachedResource,
 ) error {
-	var hashAlgo string
-
-	var hash string
+	if res.DigestSRI == "" && res.DigestMultiBase == "" {
+		return fmt.Errorf("no digest: %s", res.Id)
+	}
 
 	if res.DigestSRI != "" {
-		sp := strings.Split(res.DigestSRI, "-")
-
-		if len(sp) != 2 {
+		hashAlgo, hash, ok := strings.Cut(res.DigestSRI, "-")
+		if !ok {
 			return fmt.Errorf("invalid digest SRI format: %s", res.DigestSRI)
 		}
 
-		hashAlgo = sp[0]
-		hash = sp[1]
-	} else if res.DigestMultiBase != "" {
-		hashAlgo = "sha256"
-		hash = res.DigestMultiBase
+		if err := r.validateHash(hash, hashAlgo, res, cachedResource); err != nil {
+			return err
+		}
 	}
 
-	return r.validateHash(hash, hashAlgo, res, cachedResource)
+	if res.DigestMultiBase != "" {
+		return r.validateHash(res.DigestMultiBase, "sha256", res, cachedResource)
+	}
+
+	return nil
 }
 
 func (r *RelatedResourceValidator) validateHash(
-- 
2.43.0


From f9b6b28e53ca33742e91e479779cf78d46765870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 46/70] fix: accept the base64 digests of subresource integrity
 for related resources

---
 verifiable/related_resource.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index d803d28..55c353c 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"crypto/sha512"
+	"encoding/base64"
 	"errors"
 	"fmt"
 	"io"
@@ -164,8 +165,11 @@ func (r *RelatedResourceValidator) validateSingleResource(
 			return fmt.Errorf("invalid digest SRI format: %s", res.DigestSRI)
 		}
 
-		if err := r.validateHash(hash, hashAlgo, res, cachedResource); err != nil {
-			return err
+		// A digest of subresource integrity is encoded in base64, without a multibase prefix.
+		if !matchesSRI(hash, hashAlgo, cachedResource) {
+			if err := r.validateHash(hash, hashAlgo, res, cachedResource); err != nil {
+				return err
+			}
 		}
 	}
 
@@ -176,6 +180,24 @@ func (r *RelatedResourceValidator) validateSingleResource(
 	return nil
 }
 
+func matchesSRI(hash, hashAlgo string, cachedResource *CachedResource) bool {
+	digest, err := base64.StdEncoding.DecodeString(hash)
+	if err != nil {
+		return false
+	}
+
+	switch strings.ToLower(hashAlgo) {
+	case "sha256":
+		return bytes.Equal(cachedResource.Sha256Hash, digest)
+	case "sha384":
+		return bytes.Equal(cachedResource.Sha384Hash, digest)
+	case "sha512":
+		return bytes.Equal(cachedResource.Sha512Hash, digest)
+	default:
+		return false
+	}
+}
+
 func (r *RelatedResourceValidator) validateHash(
 	hash string,
 	hashAlgo string,
-- 
2.43.0


From 7d194b24307b4a8954289dec9eaf4e4d918d5ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 47/70] fix: a credential has to conform to all the schemas it
 refers to, not only to the first

---
 verifiable/credential.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 723302d..b25d400 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2172,27 +2172,30 @@ func SerializeSubject(subject []Subject) interface{} {
 // conforms to the serialization of the Verifiable Credential data model
 // (https://w3c.github.io/vc-data-model/#example-1-a-simple-example-of-a-verifiable-credential)
 func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContents, opts *credentialOpts) error {
-	schemaLoader, err := getSchemaLoader(vcc, opts)
+	schemaLoaders, err := getSchemaLoaders(vcc, opts)
 	if err != nil {
 		return fmt.Errorf("get schema loader: %w", err)
 	}
 
-	loader := gojsonschema.NewGoLoader(vcJSON)
+	for _, schemaLoader := range schemaLoaders {
+		loader := gojsonschema.NewGoLoader(vcJSON)
 
-	result, err := gojsonschema.Validate(schemaLoader, loader)
-	if err != nil {
-		return fmt.Errorf("validation of verifiable credential: %w", err)
-	}
+		result, err := gojsonschema.Validate(schemaLoader, loader)
+		if err != nil {
+			return fmt.Errorf("validation of verifiable credential: %w", err)
+		}
 
-	if !result.Valid() {
-		errMsg := describeSchemaValidationError(result, "verifiable credential")
-		return errors.New(errMsg)
+		if !result.Valid() {
+			errMsg := describeSchemaValidationError(result, "verifiable credential")
+			return errors.New(errMsg)
+		}
 	}
 
 	return nil
 }
 
-func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschema.JSONLoader, error) {
+// getSchemaLoaders returns the schemas a credential has to conform to: all the custom ones it refers to, or the default.
+func getSchemaLoaders(vcc *CredentialContents, opts *credentialOpts) ([]gojsonschema.JSONLoader, error) {
 	var schemaLoader gojsonschema.JSONLoader
 
 	if IsBaseContext(vcc.Context, V2ContextURI) {
@@ -2202,17 +2205,19 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 	}
 
 	if opts.disabledCustomSchema {
-		return schemaLoader, nil
+		return []gojsonschema.JSONLoader{schemaLoader}, nil
 	}
 
 	if opts.defaultSchema != "" {
-		return gojsonschema.NewStringLoader(opts.defaultSchema), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchema)}, nil
 	}
 
 	if opts.defaultSchemaLoader != nil {
-		return gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc)), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc))}, nil
 	}
 
+	var customSchemaLoaders []gojsonschema.JSONLoader
+
 	for _, schema := range vcc.Schemas {
 		switch schema.Type {
 		case jsonSchema2018Type, jsonSchemaType:
@@ -2221,7 +2226,7 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 				return nil, fmt.Errorf("load of custom credential schema from %s: %w", schema.ID, err)
 			}
 
-			return gojsonschema.NewBytesLoader(customSchemaData), nil
+			customSchemaLoaders = append(customSchemaLoaders, gojsonschema.NewBytesLoader(customSchemaData))
 		//TODO: add support for JSON Schema Credential
 		case jsonSchemaCredentialType:
 			// TODO: should unsupported schema type be ignored or should this cause an error?
@@ -2232,7 +2237,11 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 		}
 	}
 
-	return schemaLoader, nil
+	if len(customSchemaLoaders) > 0 {
+		return customSchemaLoaders, nil
+	}
+
+	return []gojsonschema.JSONLoader{schemaLoader}, nil
 }
 
 type schemaOpts struct {
-- 
2.43.0


From 6614eb9b5d1f5593654d509c8f9ef215d1b46ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 48/70] fix: signing a credential without an issuance date or
 issuer as a CWT or JWT must not panic

---
 verifiable/credential_cwt.go | 11 +++++++----
 verifiable/credential_jwt.go |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_cwt.go b/verifiable/credential_cwt.go
index 08ac082..cb7a929 100644
--- a/verifiable/credential_cwt.go
+++ b/verifiable/credential_cwt.go
@@ -33,10 +33,12 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	claims := &CWTClaims{
-		Issuer:    vcc.Issuer.ID,                           // iss
-		NotBefore: josejwt.NewNumericDate(vcc.Issued.Time), // nbf
-		ID:        vcc.ID,                                  // jti
-		Subject:   subjectID,                               // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		claims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
@@ -45,6 +47,7 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	if vcc.Issued != nil {
 		claims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time)
+		claims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time) // nbf
 	}
 
 	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index dc3bad3..0d2db10 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -109,9 +109,12 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	jwtClaims := &jwt.Claims{
-		Issuer:  vcc.Issuer.ID, // iss
-		ID:      vcc.ID,        // jti
-		Subject: subjectID,     // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		jwtClaims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
-- 
2.43.0


From f8915b3e31f1a5c63d2c32a849db4e5fd86a46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 49/70] fix: a CWT with several members that read the same must
 be refused

---
 verifiable/credential_parser.go   | 35 +++++++++++++++++++++++--------
 verifiable/presentation_cwt.go    |  7 ++++++-
 verifiable/presentation_parser.go |  5 ++++-
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/verifiable/credential_parser.go b/verifiable/credential_parser.go
index f95d4cd..5cd66be 100644
--- a/verifiable/credential_parser.go
+++ b/verifiable/credential_parser.go
@@ -115,30 +115,44 @@ type CredentialCBORParser struct{}
 
 func convertToStringMap(
 	input map[interface{}]interface{},
-) map[string]interface{} {
-	out := map[string]interface{}{}
+) (map[string]interface{}, error) {
+	out := make(map[string]interface{}, len(input))
 
 	for k, v := range input {
 		key := fmt.Sprintf("%v", k)
 
-		out[key] = convertElement(v)
+		if _, ok := out[key]; ok {
+			return nil, fmt.Errorf("cbor map has several keys that read %q", key)
+		}
+
+		converted, err := convertElement(v)
+		if err != nil {
+			return nil, err
+		}
+
+		out[key] = converted
 	}
 
-	return out
+	return out, nil
 }
 
-func convertElement(element interface{}) interface{} {
+func convertElement(element interface{}) (interface{}, error) {
 	switch elem := element.(type) {
 	case map[interface{}]interface{}:
 		return convertToStringMap(elem)
 	case []interface{}:
 		for i, v := range elem {
-			elem[i] = convertElement(v)
+			converted, err := convertElement(v)
+			if err != nil {
+				return nil, err
+			}
+
+			elem[i] = converted
 		}
 
-		return elem
+		return elem, nil
 	default:
-		return elem
+		return elem, nil
 	}
 }
 
@@ -190,7 +204,10 @@ func (p *CredentialCBORParser) Parse( //nolint:funlen,gocyclo // Old function
 		return nil, errors.New("vc field not found in cbor credential")
 	}
 
-	convertedMap := convertToStringMap(vcDataMap)
+	convertedMap, err := convertToStringMap(vcDataMap)
+	if err != nil {
+		return nil, fmt.Errorf("convert cbor credential: %w", err)
+	}
 
 	contents, err := parseCredentialContents(convertedMap, false)
 	if err != nil {
diff --git a/verifiable/presentation_cwt.go b/verifiable/presentation_cwt.go
index e9b6018..6e18c35 100644
--- a/verifiable/presentation_cwt.go
+++ b/verifiable/presentation_cwt.go
@@ -65,12 +65,17 @@ func (vp *Presentation) CreateCWTVP(
 		return nil, fmt.Errorf("failed to unmarshal VP map: %w", err)
 	}
 
+	convertedMap, err := convertToStringMap(vpMap)
+	if err != nil {
+		return nil, fmt.Errorf("failed to convert VP map: %w", err)
+	}
+
 	vp2 := vp.Clone()
 
 	vp2.CWT = &VpCWT{
 		Raw:     cwtBytes,
 		Message: msg,
-		VPMap:   convertToStringMap(vpMap),
+		VPMap:   convertedMap,
 	}
 
 	vp2.JWT = ""
diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index d8e0822..ab00f46 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -152,7 +152,10 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 		return nil, fmt.Errorf("unmarshal cbor vp payload: %w", err)
 	}
 
-	convertedMap := convertToStringMap(vpMap)
+	convertedMap, err := convertToStringMap(vpMap)
+	if err != nil {
+		return nil, fmt.Errorf("convert cbor vp: %w", err)
+	}
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if ok {
-- 
2.43.0


From cc48015378487d8e34865f1a7f0655c2f1a9da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 50/70] fix: issuing SD-JWTs concurrently must not race on the
 random source

---
 sdjwt/issuer/issuer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 38e9ca7..1bd1c35 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -49,7 +49,6 @@ import (
 	"fmt"
 	mathrand "math/rand"
 	"strings"
-	"time"
 
 	josejson "github.com/go-jose/go-jose/v3/json"
 	"github.com/go-jose/go-jose/v3/jwt"
@@ -73,8 +72,6 @@ const (
 	vcKey                = "vc"
 )
 
-var mr = mathrand.New(mathrand.NewSource(time.Now().Unix())) // nolint:gochecknoglobals
-
 // Claims defines JSON Web Token Claims (https://tools.ietf.org/html/rfc7519#section-4)
 type Claims jwt.Claims
 
@@ -534,7 +531,7 @@ func createDigests(disclosures []*DisclosureEntity, nOpts *newOpts) ([]string, e
 		digests = append(digests, digest)
 	}
 
-	mr.Shuffle(len(digests), func(i, j int) {
+	mathrand.Shuffle(len(digests), func(i, j int) {
 		digests[i], digests[j] = digests[j], digests[i]
 	})
 
@@ -557,7 +554,7 @@ func createDecoyDisclosures(opts *newOpts) ([]*DisclosureEntity, error) {
 		return nil, nil
 	}
 
-	n := mr.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
+	n := mathrand.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements // nolint:gosec
 
 	var decoyDisclosures []*DisclosureEntity
 
-- 
2.43.0


From e400154d9512b94af9316a451113a23f0c5340e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 51/70] fix: MakeSDJWT must not write to the caller's list of
 claim names

---
 verifiable/credential_sdjwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 698afb5..ee50bda 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -11,6 +11,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"slices"
 
 	"github.com/trustbloc/kms-go/doc/jose"
 
@@ -399,7 +400,8 @@ func makeSDJWT( //nolint:funlen,gocyclo
 		)
 	}
 
-	opts.nonSDClaims = append(opts.nonSDClaims, "id")
+	// never write to the backing array of the caller's slice
+	opts.nonSDClaims = append(slices.Clip(opts.nonSDClaims), "id")
 	issuerOptions = append(issuerOptions,
 		issuer.WithNonSelectivelyDisclosableClaims(opts.nonSDClaims),
 	)
-- 
2.43.0


From 37d94d1fd8b6c613486dfe5cd3081eabc437a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:47 +0000
Subject: [PATCH 52/70] fix: a copy of a presentation must not share its lists
 and maps with the original

---
 verifiable/presentation.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 5927a99..db4ecf8 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -10,6 +10,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/fxamacker/cbor/v2"
@@ -543,14 +545,14 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 // Clone returns an exact copy of the presentation.
 func (vp *Presentation) Clone() *Presentation {
 	return &Presentation{
-		Context:       vp.Context,
-		CustomContext: vp.CustomContext,
+		Context:       slices.Clone(vp.Context),
+		CustomContext: slices.Clone(vp.CustomContext),
 		ID:            vp.ID,
-		Type:          vp.Type,
-		credentials:   vp.credentials,
+		Type:          slices.Clone(vp.Type),
+		credentials:   slices.Clone(vp.credentials),
 		Holder:        vp.Holder,
-		Proofs:        vp.Proofs,
-		CustomFields:  vp.CustomFields,
+		Proofs:        slices.Clone(vp.Proofs),
+		CustomFields:  maps.Clone(vp.CustomFields),
 		JWT:           vp.JWT,
 		CWT:           vp.CWT,
 	}
-- 
2.43.0


From 4290237b07458ae0428dc9f0ea60e5d194a39656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 53/70] fix: base context validation must not panic for a
 credential without types or contexts

---
 verifiable/credential.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index b25d400..bb6ca10 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1642,11 +1642,11 @@ func validateCredential(vcc *CredentialContents, vcJSON JSONObject, vcOpts *cred
 }
 
 func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
-	if len(vcc.Types) > 1 || vcc.Types[0] != VCType {
+	if len(vcc.Types) != 1 || vcc.Types[0] != VCType {
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) > 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
-- 
2.43.0


From 46095cf2ecdedaf263fb3c207bc655a5ffcf6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:42 +0000
Subject: [PATCH 54/70] fix: a JSON schema another party provides must not
 crash the process or recurse without end

---
 presexch/definition.go        |   3 +-
 util/jsonschema/jsonschema.go | 184 ++++++++++++++++++++++++++++++++++
 verifiable/credential.go      |   3 +-
 verifiable/presentation.go    |   3 +-
 4 files changed, 190 insertions(+), 3 deletions(-)
 create mode 100644 util/jsonschema/jsonschema.go

diff --git a/presexch/definition.go b/presexch/definition.go
index 0647b59..9e0ba6a 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
+	"github.com/trustbloc/vc-go/util/jsonschema"
 
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	"github.com/trustbloc/vc-go/verifiable"
@@ -1976,7 +1977,7 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 	}
 
 	for _, sh := range schemasToExecute {
-		result, err := gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
+		result, err := jsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
 		if err != nil || !result.Valid() {
 			return errors.Join(errPathNotApplicable)
 		}
diff --git a/util/jsonschema/jsonschema.go b/util/jsonschema/jsonschema.go
new file mode 100644
index 0000000..24040c0
--- /dev/null
+++ b/util/jsonschema/jsonschema.go
@@ -0,0 +1,184 @@
+/*
+Copyright Gen Digital Inc. All Rights Reserved.
+
+SPDX-License-Identifier: Apache-2.0
+*/
+
+// Package jsonschema validates documents using JSON schemas that need not be trusted.
+package jsonschema
+
+import (
+	"errors"
+	"fmt"
+	"net/url"
+	"strconv"
+	"strings"
+
+	"github.com/xeipuuv/gojsonschema"
+)
+
+// Validate validates a document using a schema. The schema may come from another party: the schema library panics on
+// some malformed schemas, and never ends for one whose references lead back to themselves, neither of which must take
+// the caller down.
+func Validate(schema, document gojsonschema.JSONLoader) (result *gojsonschema.Result, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			result, err = nil, fmt.Errorf("json schema processing failed: %v", r)
+		}
+	}()
+
+	schemaDoc, err := schema.LoadJSON()
+	if err != nil {
+		return nil, err
+	}
+
+	if err = checkReferences(schemaDoc); err != nil {
+		return nil, err
+	}
+
+	return gojsonschema.Validate(schema, document)
+}
+
+// checkReferences refuses a schema which refers back to itself for the very value it is applied to.
+func checkReferences(schemaDoc interface{}) error {
+	refs := &references{schemas: map[string]map[string]interface{}{}, state: map[string]int{}}
+	refs.collect("", schemaDoc)
+
+	for pointer := range refs.schemas {
+		if refs.cyclic(pointer) {
+			return errors.New("json schema refers back to itself")
+		}
+	}
+
+	return nil
+}
+
+const (
+	visiting = 1
+	visited  = 2
+)
+
+type references struct {
+	schemas map[string]map[string]interface{} // by JSON pointer
+	named   []namedSchema
+	state   map[string]int
+}
+
+type namedSchema struct {
+	id, pointer string
+}
+
+func (r *references) collect(pointer string, v interface{}) {
+	switch val := v.(type) {
+	case map[string]interface{}:
+		r.schemas[pointer] = val
+
+		for _, key := range []string{"$id", "id"} {
+			if id, ok := val[key].(string); ok {
+				r.named = append(r.named, namedSchema{id: id, pointer: pointer})
+			}
+		}
+
+		for k, e := range val {
+			r.collect(pointer+"/"+escape(k), e)
+		}
+	case []interface{}:
+		for i, e := range val {
+			r.collect(pointer+"/"+strconv.Itoa(i), e)
+		}
+	}
+}
+
+func (r *references) cyclic(pointer string) bool {
+	schema, ok := r.schemas[pointer]
+	if !ok || r.state[pointer] == visited {
+		return false
+	}
+
+	if r.state[pointer] == visiting {
+		return true
+	}
+
+	r.state[pointer] = visiting
+
+	for _, next := range r.appliedBy(pointer, schema) {
+		if r.cyclic(next) {
+			return true
+		}
+	}
+
+	r.state[pointer] = visited
+
+	return false
+}
+
+// appliedBy lists the schemas that are applied to the same value as the given one.
+func (r *references) appliedBy(pointer string, schema map[string]interface{}) []string {
+	if ref, ok := schema["$ref"].(string); ok {
+		return r.targets(ref)
+	}
+
+	var next []string
+
+	for _, key := range []string{"not", "if", "then", "else"} {
+		next = append(next, pointer+"/"+key)
+	}
+
+	for _, key := range []string{"allOf", "anyOf", "oneOf"} {
+		list, _ := schema[key].([]interface{})
+
+		for i := range list {
+			next = append(next, pointer+"/"+key+"/"+strconv.Itoa(i))
+		}
+	}
+
+	dependencies, _ := schema["dependencies"].(map[string]interface{})
+
+	for key := range dependencies {
+		next = append(next, pointer+"/dependencies/"+escape(key))
+	}
+
+	return next
+}
+
+// targets lists the schemas in the document that a reference may mean.
+func (r *references) targets(ref string) []string {
+	base, fragment, _ := strings.Cut(ref, "#")
+
+	if unescaped, err := url.PathUnescape(fragment); err == nil {
+		fragment = unescaped
+	}
+
+	var (
+		roots   []string
+		targets []string
+	)
+
+	if base == "" {
+		roots = append(roots, "")
+	}
+
+	for _, n := range r.named {
+		id, name, _ := strings.Cut(n.id, "#")
+
+		if base == "" || id == base || strings.HasSuffix(id, "/"+base) {
+			roots = append(roots, n.pointer)
+		}
+
+		if fragment != "" && name == fragment {
+			targets = append(targets, n.pointer)
+		}
+	}
+
+	for _, root := range roots {
+		if fragment == "" || strings.HasPrefix(fragment, "/") {
+			targets = append(targets, root+fragment)
+		}
+	}
+
+	return targets
+}
+
+func escape(key string) string {
+	return strings.NewReplacer("~", "~0", "/", "~1").Replace(key)
+}
diff --git a/verifiable/credential.go b/verifiable/credential.go
index bb6ca10..77e8382 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -37,6 +37,7 @@ import (
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 	utiljsonld "github.com/trustbloc/vc-go/util/jsonld"
+	"github.com/trustbloc/vc-go/util/jsonschema"
 	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 	"github.com/trustbloc/vc-go/verifiable/lddocument"
 )
@@ -2180,7 +2181,7 @@ func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContent
 	for _, schemaLoader := range schemaLoaders {
 		loader := gojsonschema.NewGoLoader(vcJSON)
 
-		result, err := gojsonschema.Validate(schemaLoader, loader)
+		result, err := jsonschema.Validate(schemaLoader, loader)
 		if err != nil {
 			return fmt.Errorf("validation of verifiable credential: %w", err)
 		}
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index db4ecf8..6726067 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -22,6 +22,7 @@ import (
 	"github.com/trustbloc/vc-go/dataintegrity"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 	utiljsonld "github.com/trustbloc/vc-go/util/jsonld"
+	"github.com/trustbloc/vc-go/util/jsonschema"
 )
 
 const (
@@ -978,7 +979,7 @@ func validateVPJSONSchema(data rawPresentation) error {
 	validate := func(schemaLoader gojsonschema.JSONLoader, data rawPresentation) error {
 		loader := gojsonschema.NewGoLoader(data)
 
-		result, err := gojsonschema.Validate(schemaLoader, loader)
+		result, err := jsonschema.Validate(schemaLoader, loader)
 		if err != nil {
 			return fmt.Errorf("validation of verifiable credential: %w", err)
 		}
-- 
2.43.0


From 522a291e0d6e7f7623c98cd78159bcf64a3661f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:07 +0000
Subject: [PATCH 55/70] fix: a presentation must keep its object contexts when
 it is marshalled

---
 verifiable/presentation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 6726067..e8ef6d7 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -500,8 +500,8 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 
 	// TODO single value contexts should be compacted as part of Issue [#1730]
 	// Not compacting now to support interoperability
-	if len(vp.Context) > 0 {
-		rp[vpFldContext] = contextToRaw(vp.Context, nil)
+	if len(vp.Context)+len(vp.CustomContext) > 0 {
+		rp[vpFldContext] = contextToRaw(vp.Context, vp.CustomContext)
 	}
 
 	if vp.ID != "" {
-- 
2.43.0


From c9aa2bb55f490f83945e9a7af21184d37254b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 56/70] fix: a presentation must keep the members of its holder
 object when it is marshalled

---
 verifiable/presentation.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index e8ef6d7..3fcad38 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -353,6 +353,9 @@ type Presentation struct {
 	CWT           *VpCWT
 
 	CustomFields CustomFields
+
+	// holderObject is the holder as it was parsed, if it is an object: it may have more members than the id.
+	holderObject JSONObject
 }
 
 // NewPresentation creates a new Presentation with default context and type with the provided credentials.
@@ -514,6 +517,10 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 
 	if len(vp.Holder) > 0 {
 		rp[vpFldHolder] = vp.Holder
+
+		if vp.holderObject[vpFldID] == vp.Holder {
+			rp[vpFldHolder] = vp.holderObject
+		}
 	}
 
 	if len(vp.Proofs) > 0 {
@@ -556,6 +563,7 @@ func (vp *Presentation) Clone() *Presentation {
 		CustomFields:  maps.Clone(vp.CustomFields),
 		JWT:           vp.JWT,
 		CWT:           vp.CWT,
+		holderObject:  maps.Clone(vp.holderObject),
 	}
 }
 
@@ -865,7 +873,10 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 		return nil, err
 	}
 
+	holderObject, _ := vpRaw[vpFldHolder].(JSONObject) // nolint:errcheck // a string is no object
+
 	return &Presentation{
+		holderObject:  holderObject,
 		Context:       context,
 		CustomContext: customContext,
 		ID:            id,
-- 
2.43.0


From 7244a380faf45e4727d6523f9443ada697ee2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:09 +0000
Subject: [PATCH 57/70] fix: changing a date of a credential must not leave
 another date behind or panic

---
 verifiable/credential.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 77e8382..d5cdca6 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2561,6 +2561,23 @@ func serializeTime(t *util.TimeWrapper) interface{} {
 	return t.FormatToString()
 }
 
+// setTimeFld sets the given time field. Its counterpart of the other data model version means the same time, so it
+// follows when it is present. No time removes both.
+func setTimeFld(credentialJSON JSONObject, t *util.TimeWrapper, fldName, counterpart string) {
+	if t == nil {
+		delete(credentialJSON, fldName)
+		delete(credentialJSON, counterpart)
+
+		return
+	}
+
+	credentialJSON[fldName] = serializeTime(t)
+
+	if _, ok := credentialJSON[counterpart]; ok {
+		credentialJSON[counterpart] = serializeTime(t)
+	}
+}
+
 func serializeTypes(types []string) interface{} {
 	if len(types) == 1 {
 		// as string
@@ -2668,7 +2685,7 @@ func (vc *Credential) WithModifiedIssued(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldIssued] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, wrapper, jsonFldIssued, jsonFldValidFrom)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2682,7 +2699,7 @@ func (vc *Credential) WithModifiedExpired(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldExpired] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, wrapper, jsonFldExpired, jsonFldValidUntil)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2696,7 +2713,7 @@ func (vc *Credential) WithModifiedValidFrom(wrapper *util.TimeWrapper) *Credenti
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldValidFrom] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, wrapper, jsonFldValidFrom, jsonFldIssued)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2710,7 +2727,7 @@ func (vc *Credential) WithModifiedValidUntil(wrapper *util.TimeWrapper) *Credent
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldValidUntil] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, wrapper, jsonFldValidUntil, jsonFldExpired)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
-- 
2.43.0


From 8fc413281e1baa2bc13e9aea92cdf3c01f5bb2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:09 +0000
Subject: [PATCH 58/70] fix: the JSON object of a created credential must be
 parseable

---
 verifiable/credential.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index d5cdca6..dc897be 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1862,6 +1862,23 @@ func parseRelatedResources(typeRaw interface{}) ([]RelatedResource, error) {
 	return resources, nil
 }
 
+func serializeRelatedResource(resource RelatedResource) interface{} {
+	obj := JSONObject{}
+
+	for name, value := range map[string]string{
+		"id":              resource.Id,
+		"digestSRI":       resource.DigestSRI,
+		"digestMultibase": resource.DigestMultiBase,
+		"mediaType":       resource.MediaType,
+	} {
+		if value != "" {
+			obj[name] = value
+		}
+	}
+
+	return obj
+}
+
 func stringify(val any) string {
 	if val == nil {
 		return ""
@@ -2166,7 +2183,9 @@ func SerializeSubject(subject []Subject) interface{} {
 		return SubjectToJSON(subject[0])
 	}
 
-	return mapSlice(subject, SubjectToJSON)
+	return mapSlice(subject, func(s Subject) interface{} {
+		return SubjectToJSON(s)
+	})
 }
 
 // validateCredentialUsingJSONSchema validates that the Verifiable Credential
@@ -2495,7 +2514,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 		if len(vcc.Status) == 1 {
 			vcJSON[jsonFldStatus] = serializeTypedIDObj(*vcc.Status[0])
 		} else {
-			statuses := make([]map[string]interface{}, len(vcc.Status))
+			statuses := make([]interface{}, len(vcc.Status))
 
 			for i, status := range vcc.Status {
 				statuses[i] = serializeTypedIDObj(*status)
@@ -2522,7 +2541,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 	}
 
 	if len(vcc.RelatedResources) > 0 {
-		vcJSON[jsonFldRelatedResource] = vcc.RelatedResources
+		vcJSON[jsonFldRelatedResource] = mapSlice(vcc.RelatedResources, serializeRelatedResource)
 	}
 
 	if len(vcc.TermsOfUse) > 0 {
@@ -2607,7 +2626,9 @@ func typedIDsToRaw(typedIDs []TypedID) interface{} {
 	case 1:
 		return serializeTypedIDObj(typedIDs[0])
 	default:
-		return mapSlice(typedIDs, serializeTypedIDObj)
+		return mapSlice(typedIDs, func(typedID TypedID) interface{} {
+			return serializeTypedIDObj(typedID)
+		})
 	}
 }
 
-- 
2.43.0


From 8da063c46245f14aa6e85f72b31dbb4ae145034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:39 +0000
Subject: [PATCH 59/70] fix: deriving a BBS credential must not write into the
 options of its caller

---
 verifiable/bbs_selective_disclosure.go | 4 +++-
 verifiable/credential_bbs.go           | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 844660b..47a2ee5 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -216,7 +216,9 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 		return nil, fmt.Errorf("create verify document data: %w", err)
 	}
 
-	optionsWithBlankFrames := append(opts, processor.WithFrameBlankNodes())
+	// the caller's options are not to be written to
+	optionsWithBlankFrames := append([]processor.Opts{}, opts...)
+	optionsWithBlankFrames = append(optionsWithBlankFrames, processor.WithFrameBlankNodes())
 
 	revealDocumentResult, err := processor.Default().Frame(docCompacted, revealDoc, optionsWithBlankFrames...)
 	if err != nil {
diff --git a/verifiable/credential_bbs.go b/verifiable/credential_bbs.go
index 8340792..5e53ed9 100644
--- a/verifiable/credential_bbs.go
+++ b/verifiable/credential_bbs.go
@@ -43,7 +43,9 @@ func (vc *Credential) GenerateBBSSelectiveDisclosure(revealDoc map[string]interf
 		return nil, err
 	}
 
-	opts = append(opts, WithDisabledProofCheck())
+	// the caller's options are not to be written to
+	parseOpts := append([]CredentialOpt{}, opts...)
+	parseOpts = append(parseOpts, WithDisabledProofCheck())
 
-	return ParseCredential(vcWithSelectiveDisclosureBytes, opts...)
+	return ParseCredential(vcWithSelectiveDisclosureBytes, parseOpts...)
 }
-- 
2.43.0


From 3f9ea86fc035c4257da1922d083235dd19bf6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:35 +0000
Subject: [PATCH 60/70] fix: a BBS proof derived with a JSON Web Key must
 verify

---
 proof/ldproofs/bbsblssignatureproof2020/proof.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/proof/ldproofs/bbsblssignatureproof2020/proof.go b/proof/ldproofs/bbsblssignatureproof2020/proof.go
index 2e14d2b..91e0df3 100644
--- a/proof/ldproofs/bbsblssignatureproof2020/proof.go
+++ b/proof/ldproofs/bbsblssignatureproof2020/proof.go
@@ -34,7 +34,11 @@ const (
 	ProofType = "BbsBlsSignatureProof2020"
 	// VerificationMethodType for bbsblssignatureproof2020.
 	VerificationMethodType = "Bls12381G2Key2020"
-	rdfDataSetAlg          = "URDNA2015"
+	// JWKKeyType for bbsblssignatureproof2020.
+	JWKKeyType = "EC"
+	// JWKCurve for bbsblssignatureproof2020.
+	JWKCurve      = "BLS12381_G2"
+	rdfDataSetAlg = "URDNA2015"
 )
 
 // New an instance of Linked Data Signatures for the suite.
@@ -44,6 +48,15 @@ func New() *Proof {
 		{
 			VerificationMethodType: VerificationMethodType,
 			KMSKeyType:             kms.BLS12381G2Type,
+			JWKKeyType:             JWKKeyType,
+			JWKCurve:               JWKCurve,
+		},
+		{
+			VerificationMethodType: "JsonWebKey2020",
+			KMSKeyType:             kms.BLS12381G2Type,
+			JWKKeyType:             JWKKeyType,
+			JWKCurve:               JWKCurve,
+			RequireJWK:             true,
 		},
 	}
 
-- 
2.43.0


From 00563c889c7f916a3b5e6dad1bf3c7457b2df777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 61/70] fix: a derived BBS proof must not be accepted with
 statements its signature does not cover

---
 crypto-ext/verifiers/bbs/verifier.go | 63 ++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 2ce92fa..6e70521 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -8,6 +8,7 @@ package bbs
 
 import (
 	"bytes"
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"strings"
@@ -75,7 +76,14 @@ type G2SignatureProofVerifier struct {
 
 // Verify verifies the signature.
 func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pubkey.PublicKey,
-	proof *proof.Proof) error {
+	proof *proof.Proof) (err error) {
+	// the BBS+ library panics on some malformed proofs
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed signature proof: %v", r)
+		}
+	}()
+
 	bbs := bbs12381g2pub.New()
 
 	bytesKey := pubKeyValue.BytesKey
@@ -93,8 +101,57 @@ func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pu
 		return errors.New("incorrect pub key, should contain key bytes or jwk")
 	}
 
-	return bbs.VerifyProof(splitMessageIntoLines(string(msg), true),
-		bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	messages := splitMessageIntoLines(string(msg), true)
+
+	if err := checkRevealedMessages(signature, len(messages)); err != nil {
+		return err
+	}
+
+	return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+}
+
+// checkRevealedMessages checks that signature proof reveals exactly the given number of messages. The BBS+ library
+// takes as many messages as the proof reveals and ignores the rest, so they would be accepted without being signed.
+//
+// The proof starts with the number of signed messages (two bytes) followed by the bit vector (the last byte first)
+// of the revealed ones.
+func checkRevealedMessages(signatureProof []byte, messages int) error {
+	const (
+		countLen = 2
+		byteBits = 8
+	)
+
+	if len(signatureProof) < countLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	signed := int(binary.BigEndian.Uint16(signatureProof))
+	vector := signatureProof[countLen:]
+	vectorLen := signed/byteBits + 1
+
+	if len(vector) < vectorLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	revealed := 0
+
+	for i := range vectorLen * byteBits {
+		if vector[vectorLen-1-i/byteBits]>>(i%byteBits)&1 == 0 {
+			continue
+		}
+
+		if i >= signed {
+			return fmt.Errorf("signature proof reveals message %d of %d", i, signed)
+		}
+
+		revealed++
+	}
+
+	if revealed != messages {
+		return fmt.Errorf("signature proof reveals %d messages, document has %d", revealed, messages)
+	}
+
+	return nil
 }
 
 func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
-- 
2.43.0


From 206da8ea503c7f7c2d0ed117c62cd1e91908701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 62/70] fix: deriving a BBS credential must not give a proof
 that does not verify or change the frame

---
 verifiable/bbs_selective_disclosure.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 47a2ee5..911edff 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -10,6 +10,7 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
+	"maps"
 	"strings"
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
@@ -220,7 +221,8 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 	optionsWithBlankFrames := append([]processor.Opts{}, opts...)
 	optionsWithBlankFrames = append(optionsWithBlankFrames, processor.WithFrameBlankNodes())
 
-	revealDocumentResult, err := processor.Default().Frame(docCompacted, revealDoc, optionsWithBlankFrames...)
+	// framing writes into the frame, which belongs to the caller
+	revealDocumentResult, err := processor.Default().Frame(docCompacted, maps.Clone(revealDoc), optionsWithBlankFrames...)
 	if err != nil {
 		return nil, fmt.Errorf("frame doc with reveal doc: %w", err)
 	}
@@ -232,14 +234,24 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 
 	revealIndexes := make([]int, len(revealDocumentStatements))
 
+	// a document without an id is a blank node when it is revealed, other blank nodes are transformed
 	documentStatementsMap := make(map[string]int)
 	for i, statement := range transformedStatements {
 		documentStatementsMap[statement] = i
+		documentStatementsMap[documentStatements[i]] = i
 	}
 
-	for i := range revealDocumentStatements {
-		statement := revealDocumentStatements[i]
-		statementInd := documentStatementsMap[statement]
+	for i, statement := range revealDocumentStatements {
+		statementInd, ok := documentStatementsMap[statement]
+		if !ok {
+			return nil, fmt.Errorf("revealed statement is not a statement of the document: %s", statement)
+		}
+
+		// the proof is verified against the revealed statements in the order of the signed ones
+		if i > 0 && statementInd <= revealIndexes[i-1] {
+			return nil, fmt.Errorf("revealed statement is out of order: %s", statement)
+		}
+
 		revealIndexes[i] = statementInd
 	}
 
-- 
2.43.0


From 9bcb021ce0056bfb6c2e49bcb7654d20d614e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 63/70] fix: limited disclosure of a BBS credential must reveal
 the numbers, booleans and lists asked for

---
 presexch/definition.go | 50 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 9e0ba6a..cfb4bff 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1459,6 +1459,8 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		return nil, err
 	}
 
+	revealObj := cloneJSON(limitedObj)
+
 	for i, f := range constraints.Fields {
 		for _, path := range selected[i] {
 			if path.within(credentialSchema) {
@@ -1482,6 +1484,8 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 			if doBBS {
 				explicitPath, _ := splitLast(joinPath(target), ".")
 				explicitPaths[explicitPath] = true
+
+				revealObj = setValueAt(revealObj, target, revealFrame(target, val))
 			}
 
 			limitedObj = setValueAt(limitedObj, target, val)
@@ -1500,7 +1504,12 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		return verifiable.ParseCredential(limitedCred, limitedOpts...)
 	}
 
-	revealDoc, err := enhanceRevealDoc(explicitPaths, limitedCred, src)
+	revealTemplate, err := json.Marshal(revealObj)
+	if err != nil {
+		return nil, err
+	}
+
+	revealDoc, err := enhanceRevealDoc(explicitPaths, revealTemplate, src)
 	if err != nil {
 		return nil, err
 	}
@@ -1706,6 +1715,45 @@ func setValueAt(value any, path []any, newValue any) any {
 	return value
 }
 
+// revealFrame makes the frame that reveals the given value of a credential. A frame with the value itself does not match
+// numbers, booleans and lists, which are typed literals when the credential is framed.
+func revealFrame(path []any, value any) any {
+	for _, element := range path {
+		if _, ok := element.(int); ok { // a frame selects the elements of a list by their values only
+			return value
+		}
+	}
+
+	if len(path) > 0 && isKeyword(path[len(path)-1]) {
+		return value
+	}
+
+	switch v := value.(type) {
+	case nil:
+		return value
+	case []any:
+		if len(v) == 0 {
+			return value
+		}
+	case map[string]any:
+		frame := make(map[string]any, len(v))
+
+		for name, member := range v {
+			frame[name] = revealFrame([]any{name}, member)
+		}
+
+		return frame
+	}
+
+	return map[string]any{}
+}
+
+func isKeyword(name any) bool {
+	s, ok := name.(string)
+
+	return ok && (s == "id" || s == "type" || strings.HasPrefix(s, "@"))
+}
+
 func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
 	var err error
 
-- 
2.43.0


From 1bf15fa8edacc03ca2c7ab0475c2ea466c13f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 64/70] fix: the text of a claim must not be taken for a node
 without an id by BBS proofs

---
 crypto-ext/verifiers/bbs/verifier.go   |  2 +-
 verifiable/bbs_selective_disclosure.go | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 6e70521..32efe9c 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -182,7 +182,7 @@ func transformFromBlankNode(row string) string {
 	)
 
 	prefixIndex := strings.Index(row, emptyNodePlaceholder)
-	if prefixIndex < 0 {
+	if prefixIndex < 0 || strings.Contains(row[:prefixIndex], `"`) { // the text of a literal is not a node
 		return row
 	}
 
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 911edff..cd274ca 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -282,12 +282,23 @@ func createVerifyDocumentData(doc map[string]interface{},
 	transformedStatements := make([]string, len(documentStatements))
 
 	for i, row := range documentStatements {
-		transformedStatements[i] = processor.TransformBlankNode(row)
+		transformedStatements[i] = transformBlankNode(row)
 	}
 
 	return documentStatements, transformedStatements, nil
 }
 
+func transformBlankNode(row string) string {
+	node := strings.Index(row, "_:c14n")
+
+	// the text of a literal and of an IRI is not a node
+	if node < 0 || strings.Contains(row[:node], `"`) || (node > 0 && row[node-1] != ' ') {
+		return row
+	}
+
+	return processor.TransformBlankNode(row)
+}
+
 func createVerifyRevealData(doc map[string]interface{}, opts ...processor.Opts) ([]string, error) {
 	docBytes, err := processor.Default().GetCanonicalDocument(doc, opts...)
 	if err != nil {
-- 
2.43.0


From e9c1ea85a3c471f79dd0ab134e0ecefd75d08685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 65/70] fix: SD-JWT V2 must not issue "_sd": null for an object
 without disclosable claims

---
 sdjwt/issuer/v2.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v2.go b/sdjwt/issuer/v2.go
index 305b09a..39243c3 100644
--- a/sdjwt/issuer/v2.go
+++ b/sdjwt/issuer/v2.go
@@ -107,7 +107,9 @@ func (s *SDJWTBuilderV2) CreateDisclosuresAndDigests(
 		return nil, nil, err
 	}
 
-	digestsMap[common.SDKey] = digests
+	if len(digests) > 0 {
+		digestsMap[common.SDKey] = digests
+	}
 
 	return disclosures, digestsMap, nil
 }
-- 
2.43.0


From 64a91681c65f8c266ce8724a1e41f7843c3b71cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:46:05 +0000
Subject: [PATCH 66/70] fix: status check must look at every bit of a status
 entry that takes more than one

---
 status/internal/bitstring/bitstring.go           | 16 ++++++++++++++++
 status/status.go                                 | 13 ++++++++++++-
 .../validator/bitstringstatus/bitstringstatus.go |  9 +++++++++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/status/internal/bitstring/bitstring.go b/status/internal/bitstring/bitstring.go
index c726160..fd07e2e 100644
--- a/status/internal/bitstring/bitstring.go
+++ b/status/internal/bitstring/bitstring.go
@@ -62,6 +62,22 @@ func Decode(src string, opts ...Opt) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// AnyBitAt returns whether any bit is set in the idx'th (zero-indexed) group of size bits in the given bitstring.
+func AnyBitAt(bitString []byte, idx, size int) (bool, error) {
+	if idx < 0 || size < 1 || idx >= len(bitString)*bitsPerByte/size {
+		return false, errors.New("position is invalid")
+	}
+
+	for i := range size {
+		bitSet, err := BitAt(bitString, idx*size+i)
+		if err != nil || bitSet {
+			return bitSet, err
+		}
+	}
+
+	return false, nil
+}
+
 // BitAt returns the bit in the idx'th position (zero-indexed) in the given bitstring.
 func BitAt(bitString []byte, idx int) (bool, error) {
 	nByte := idx / bitsPerByte
diff --git a/status/status.go b/status/status.go
index c042831..6685d52 100644
--- a/status/status.go
+++ b/status/status.go
@@ -31,6 +31,11 @@ var (
 	ErrSuspended = errors.New("suspended")
 )
 
+// statusSizer is implemented by validators of status formats whose entries may take more than one bit.
+type statusSizer interface {
+	GetStatusSize(vcStatus *verifiable.TypedID) int
+}
+
 // Client verifies revocation status for Verifiable Credentials.
 type Client struct {
 	ValidatorGetter api.ValidatorGetter
@@ -106,7 +111,13 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 		return fmt.Errorf("failed to decode bits: %w", err)
 	}
 
-	bitSet, err := bitstring.BitAt(bitString, statusListIndex)
+	statusSize := 1
+
+	if sized, ok := validator.(statusSizer); ok {
+		statusSize = sized.GetStatusSize(status)
+	}
+
+	bitSet, err := bitstring.AnyBitAt(bitString, statusListIndex, statusSize)
 	if err != nil {
 		return err
 	}
diff --git a/status/validator/bitstringstatus/bitstringstatus.go b/status/validator/bitstringstatus/bitstringstatus.go
index 473d8ab..0f148ed 100644
--- a/status/validator/bitstringstatus/bitstringstatus.go
+++ b/status/validator/bitstringstatus/bitstringstatus.go
@@ -78,6 +78,15 @@ func isMissingField(vcStatus *verifiable.TypedID, field string) error {
 	return nil
 }
 
+// GetStatusSize returns the number of bits of a status entry in the status list.
+func (v *Validator) GetStatusSize(vcStatus *verifiable.TypedID) int {
+	if statusSize, ok := vcStatus.CustomFields[StatusSize].(float64); ok {
+		return int(statusSize)
+	}
+
+	return 1
+}
+
 func checkStatusSize(vcStatus *verifiable.TypedID) error {
 	statusSizeRaw := vcStatus.CustomFields[StatusSize]
 	if statusSizeRaw == nil {
-- 
2.43.0


From ee8a47a7db57dd6e8e2d1712ff9fec531c0d7944 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:47:12 +0000
Subject: [PATCH 67/70] fix: status check must not panic on a hub whose service
 endpoint lists no URI

---
 status/internal/identityhub/identityhub.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/status/internal/identityhub/identityhub.go b/status/internal/identityhub/identityhub.go
index e2e3233..bca3034 100644
--- a/status/internal/identityhub/identityhub.go
+++ b/status/internal/identityhub/identityhub.go
@@ -189,7 +189,7 @@ func ServiceEndpoint(doc *did.Doc) (string, error) {
 }
 
 func getDIDCoreServiceEndpoint(svc *did.Service) (string, error) {
-	serviceEndpoint, err := svc.ServiceEndpoint.URI()
+	serviceEndpoint, err := endpointURI(&svc.ServiceEndpoint)
 	if err == nil {
 		return serviceEndpoint, nil
 	}
@@ -207,7 +207,7 @@ func getDIDCoreServiceEndpoint(svc *did.Service) (string, error) {
 	for _, v := range mapped {
 		didCoreEndpoint := model.NewDIDCoreEndpoint(v)
 
-		serviceEndpoint, err = didCoreEndpoint.URI()
+		serviceEndpoint, err = endpointURI(&didCoreEndpoint)
 		if err == nil {
 			return serviceEndpoint, nil
 		}
@@ -215,3 +215,14 @@ func getDIDCoreServiceEndpoint(svc *did.Service) (string, error) {
 
 	return "", errors.New("unable to extract DIDCore service endpoint")
 }
+
+// endpointURI returns the URI of the endpoint, which comes from a DID document: it may be a list without any URI.
+func endpointURI(serviceEndpoint *model.Endpoint) (uri string, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			uri, err = "", fmt.Errorf("invalid service endpoint: %v", r)
+		}
+	}()
+
+	return serviceEndpoint.URI()
+}
-- 
2.43.0


From 976182ed5f8f1f00952da2fd7d0242a3dcd5ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:28 +0000
Subject: [PATCH 68/70] fix: leave the credential as it is when external
 contexts are used to check its proof

---
 verifiable/embedded_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 3e2cd98..061bd94 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -14,6 +14,7 @@ import (
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
 	"github.com/trustbloc/vc-go/dataintegrity/models"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	"github.com/trustbloc/vc-go/verifiable/lddocument"
 )
 
@@ -62,6 +63,8 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 
 	if len(opts.externalContext) > 0 {
 		// Use external contexts for check of the linked data proofs to enrich JSON-LD context vocabulary.
+		// The document itself belongs to the caller and is left as it is.
+		jsonldDoc = jsonutil.ShallowCopyObj(jsonldDoc)
 		jsonldDoc["@context"] = jsonld.AppendExternalContexts(jsonldDoc["@context"], opts.externalContext...)
 	}
 
-- 
2.43.0


From 85f2405a946a05e07f9de3fadcc0ef7020279ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:07 +0000
Subject: [PATCH 69/70] fix: leave out the id that a typed entry does not have

---
 verifiable/common.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verifiable/common.go b/verifiable/common.go
index ce787ef..26a6a8f 100644
--- a/verifiable/common.go
+++ b/verifiable/common.go
@@ -169,7 +169,11 @@ func parseTypedIDObj(typedIDObj JSONObject) (TypedID, error) {
 func serializeTypedIDObj(typedID TypedID) JSONObject {
 	json := jsonutil.ShallowCopyObj(typedID.CustomFields)
 
-	json[jsonFldTypedIDID] = typedID.ID
+	// an empty id is a relative reference
+	if typedID.ID != "" {
+		json[jsonFldTypedIDID] = typedID.ID
+	}
+
 	json[jsonFldTypedIDType] = typedID.Type
 
 	return json
-- 
2.43.0


From c47602f418a7bb68cdd0ae14b45a7db7c6a5fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:04 +0000
Subject: [PATCH 70/70] fix: data integrity proof options must carry their
 exact names

---
 dataintegrity/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index a4f807a..e2d14ca 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -7,10 +7,10 @@ SPDX-License-Identifier: Apache-2.0
 package dataintegrity
 
 import (
-	"encoding/json"
 	"errors"
 	"time"
 
+	"github.com/go-jose/go-jose/v3/json" // members must be named exactly and no more than once
 	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 
-- 
2.43.0

