prop("C01", "Revoked or suspended credentials never pass a status check",
     "A status check passes only if every status entry of the credential names a list that was actually obtained, was issued by the credential's own issuer, and has the entry's bit clear; a set bit is reported as revoked or suspended according to the entry's purpose. Whatever the network, the registry or the published list does wrong, the check ends with an error and never with a pass, a crash or a leaked connection.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "for every mix of status entries (both list formats, HTTP and DID-hub locations, malformed fields), every published list shape, every issuer update between and during checks, every interleaving of verifiers sharing one client, and every delivery fault of the network and the DID registry",
     "The tests check a handful of fixed entries against one in-process server that always answers in full; no test delivers a truncated, garbled, stale or misplaced list, updates a list between checks, mixes entries, or shares a client between tasks.",
     ["status/status.go", "status/resolver/resolver.go", "status/validator", "status/internal/bitstring/bitstring.go", "status/internal/identityhub"],
     [("entry validation, list retrieval, issuer comparison, bit lookup in that order, each failing closed", "status/status.go (Client).VerifyStatus / verifyStatus"),
      ("HTTP and DID-URL resolution of the list, status code and parse errors", "status/resolver/resolver.go (Resolver).Resolve"),
      ("decompression and bounds checking of the bit list", "status/internal/bitstring DecodeBits / BitAt")],
     "seeded exploration: about 300 runs/s per worker; the verdict of every check is compared with an independent decoder of the bytes the simulated network delivered to that check",
     observe=["(Client).VerifyStatus"])
prop("C05", "A JWT credential is accepted only if its issuer's own key signed those bytes",
     "Parsing a JWT credential with proof checking succeeds only if the delivered header and payload were signed by a key which the DID document of the credential's stated issuer lists under the token's kid for a signing relationship, as the registry answered during that check. A genuine credential that is delivered intact, in any supported envelope, is accepted and yields exactly the issued content; anything forged, altered, truncated, unsigned, or signed by a rotated-out key or someone else's key is refused.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "for every key type, every mix of issuers, key rotations and attackers, every delivery tampering of the token, every envelope, every registry fault and stale answer, and every interleaving of issuers and verifiers sharing one proof checker",
     "The tests sign and verify fixed tokens with a fixed key; none rotates keys, replays across issuers, forges contradicting issuer members, cuts or recombines tokens, or lets the registry fail or answer late between the steps of a check.",
     ["verifiable/credential.go", "verifiable/credential_jwt.go", "verifiable/credential_jws.go", "jwt/jwt.go", "proof/checker/checker.go", "vermethod/vdrkeyresolver.go"],
     [("token to credential decoding, iss overriding vc.issuer", "verifiable/credential_jwt.go"),
      ("kid resolution, issuer binding, signature check", "proof/checker/checker.go (ProofChecker).CheckJWTProof")],
     "seeded exploration, about 100 runs/s per worker; the verdict of every parse is compared with the record of what each simulated issuer really signed and with the DID document versions the registry answered with",
     observe=["verifiable.ParseCredential"])
prop("C09", "An SD-JWT shows its verifier the selected claims and nothing else",
     "A selectively disclosable claim can be read only from its own disclosure: never from the signed payload, a decoy, another claim's disclosure, or a presentation or display that leaves it out. The holder can present any selection of what the issuer sent, and the verifier reports exactly the issuer's claims under that selection. If the signer or the salt source fails, nothing is issued.",
     ["inputs", "schedules", "fault_sequences"],
     "for every claim tree, both SD-JWT versions, every combination of issuer options and hash, every selection of disclosures (closed under nesting or not), interleavings of concurrent issuers, holders and verifiers, and every failure of signer, salt source and registry",
     "The tests use fixed claim sets with one option at a time and look at counts of disclosures; none searches payload and presentation for values that should not be there, or fails the signer or the salt source half way.",
     ["sdjwt/issuer/issuer.go", "sdjwt/issuer/v2.go", "sdjwt/issuer/v5.go", "sdjwt/holder/holder.go", "sdjwt/verifier/verifier.go", "sdjwt/common/verification.go", "verifiable/credential_sdjwt.go"],
     [("claims to disclosures and digests", "sdjwt/issuer (SDJWTBuilderV2/V5).CreateDisclosuresAndDigests"),
      ("selection of disclosures", "sdjwt/holder.CreatePresentation, verifiable (Credential).MarshalWithDisclosure"),
      ("digests back to claims", "sdjwt/common discloseClaimValue")],
     "seeded exploration: every claim value is a unique marker whose presence in the decoded bytes is checked, and the verifier's claims are compared with an independent SD-JWT processor",
     observe=["issuer.New", "holder.CreatePresentation", "verifier.Parse", "(Credential).MarshalWithDisclosure", "(Credential).CreateDisplayCredential"])
prop("C10", "An SD-JWT is accepted only with disclosures its issuer committed to",
     "A verifier, holder or credential parser accepts an SD-JWT only if its stated issuer signed the token and every delivered disclosure matches exactly one digest of the right kind in the signed payload or in another accepted disclosure, without overriding a claim; the claims it reports are then exactly the signed ones with those disclosures in place. Anything forged, altered, foreign, duplicated, truncated or ambiguous is refused, and every well-formed SD-JWT, whichever vendor's issuer made it, is accepted.",
     ["inputs", "schedules", "fault_sequences"],
     "for every payload structure an issuer may sign (digests at any depth, in objects and arrays), every flaw an issuer may build in, every alteration, recombination, reordering and truncation of token and disclosures on the way, and every receiver",
     "The tests parse a few fixed SD-JWTs with one hand-made defect each; none combines tokens and disclosures of different issuers, lets another implementation's issuer choose the structure, or compares the reported claims with an independent processor.",
     ["sdjwt/verifier/verifier.go", "sdjwt/holder/holder.go", "sdjwt/common/verification.go", "sdjwt/common/common.go", "verifiable/credential.go", "jwt/jwt.go"],
     [("digest lookup, duplicates and kinds", "sdjwt/common VerifyDisclosuresInSDJWT / discloseClaimValue"),
      ("issuer signature bound to iss", "jwt.ParseAndCheckProof"),
      ("credential disclosures", "verifiable validateDisclosures")],
     "seeded exploration: verdict and claims are compared with an independent SD-JWT processor in both directions",
     observe=["verifier.Parse", "holder.Parse", "verifiable.ParseCredential"])

prop("C11", "SD-JWT holder verification accepts only the bound key's proof for this session",
     "When a verifier requires holder verification, or a presentation carries one, the presentation is accepted only if the carried JWT was signed by the very key the issuer put into that SD-JWT, with an allowed algorithm, for the nonce and audience this session expects, within its own and the SD-JWT's validity period. A missing, replayed, redirected, re-signed, unsigned or altered holder verification is refused, and an honest holder's answer is accepted within the configured leeway.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "for every mix of wallets, key kinds, documents, sessions, leeways and algorithm policies, every replay of an earlier message into a later session, every recombination of bindings and documents, holder clock skew and delivery delay",
     "The tests check one fixed binding per option; none replays bindings across sessions, documents and wallets, lets deliveries and clocks drift over the validity limits, or states the policy as an independent decision.",
     ["sdjwt/verifier/verifier.go", "sdjwt/verifier/holderbidning.go", "sdjwt/verifier/keybidning.go", "sdjwt/holder/holder.go", "sdjwt/common/verification.go", "proof/checker/checker.go"],
     [("holder verification", "sdjwt/verifier runHolderVerification"),
      ("nonce and audience", "verifyHolderBindingJWT / verifyKeyBindingJWT"),
      ("validity periods", "sdjwt/common VerifyJWT")],
     "seeded exploration: each verdict is compared with the record of who signed which binding for which session",
     observe=["verifier.Parse", "holder.CreateHolderVerification"])

prop("C06", "A linked data proof covers the whole document and its issuer's own key made it",
     "A credential or document with linked data proofs is accepted only if every proof on it was made over exactly this statement (in RDF canonical form) with exactly these proof options, by a key that the DID document of its stated issuer lists for a signing relationship, as the registry answered during that check. Every genuine document, with its proofs in any order or number and its members in any order, is accepted; anything altered, recombined, re-signed by someone else, unsigned or partly unsigned is refused, and no context server or registry failure turns a refusal into acceptance.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "for every proof suite, key kind and method type, every set of proofs, every alteration of document, contexts, proof options and signatures, every key rotation, every failure or stale answer of the registry and the context server, and every interleaving of issuers and verifiers",
     "The tests verify fixed documents with one proof; none recombines proofs between documents, mixes good and foreign proofs in one set, changes single proof options or contexts, or fails the context server in the middle of a check.",
     ["verifiable/embedded_proof.go", "verifiable/linked_data_proof.go", "verifiable/lddocument/verifier.go", "verifiable/lddocument/signer.go", "proof/checker/checker.go", "proof/ldproofs", "proof/creator/creator.go"],
     [("all proofs of the set are checked", "verifiable/lddocument (DocumentVerifier).VerifyObject"),
      ("method resolution and issuer binding", "proof/checker (ProofChecker).CheckLDProof"),
      ("proof dispatch", "verifiable checkEmbeddedProof")],
     "seeded exploration; what was signed is compared in RDF canonical form computed by json-gold alone, outside the code under test",
     observe=["(DocumentVerifier).VerifyObject", "verifiable.ParseCredential"])

prop("C02", "A DID and a domain count as linked only if each vouches for the other",
     "Verification of a DID against a domain succeeds only if the configuration document that was fetched in full from that very domain holds a domain linkage credential about exactly this DID and this origin (scheme, host and port), well formed under the DID configuration rules, and signed by a key the DID's own document listed at that moment. Any such entry suffices, whatever other valid, foreign or broken entries stand beside it; copied, redirected, altered, unsigned, revoked-key or truncated material never links, crashes or leaks.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "for every mix of good, flawed, copied and foreign entries in both proof formats, every domain spelling, every republishing and key rotation between and during checks, every interleaving of verifiers sharing one client, and every fault of the network, the registry and the context server",
     "The tests verify a few fixed configuration documents from a server that always answers in full; none mixes good and bad entries, rotates keys, compares origins pairwise, or fails the network half way.",
     ["didconfig/verifier/didconfig.go", "didconfig/client/didconfig.go"],
     [("entry selection and linkage rules", "didconfig/verifier getCredentials / isValidDomainLinkageCredential"),
      ("origin comparison", "didconfig/verifier validateOrigin"),
      ("fetch and status handling", "didconfig/client (Client).VerifyDIDAndDomain")],
     "seeded exploration; each verdict is compared with the delivered bytes and the record of who signed what",
     observe=["verifier.VerifyDIDAndDomain", "(Client).VerifyDIDAndDomain"])

prop("C07", "A data integrity proof covers document and options and its named key made it",
     "A document with data integrity proofs is accepted only if each proof was made over exactly this statement with exactly these options (cryptosuite, purpose, creation and expiry time, domain, challenge, verification method) by the key which that method's DID document lists for the proof purpose; the proof is unexpired, carries the purpose, domain and challenge the verifier expects, and on a credential the method belongs to the issuer. Each proof of a set counts on its own, and earlier verifications with the same verifier or options never change a verdict. Every genuine document with unexpired proofs is accepted, and adding a proof keeps the content and the proofs already there.",
     ["inputs", "schedules", "fault_sequences", "histories", "clocks"],
     "for every cryptosuite, key kind and method type, every set of one to three proofs with any options, every alteration of document, contexts, options and signatures, every recombination of proofs, clock skew and delay around expiry, key rotation, and every failure or stale answer of registry and context server",
     "The tests verify one proof on a fixed document, mostly against mocked suites; none verifies sets of proofs by different keys, reuses verification options, changes single proof options, or lets clocks and key rotations run.",
     ["dataintegrity/verifier.go", "dataintegrity/signer.go", "dataintegrity/suite/ecdsa2019/ecdsa2019.go", "dataintegrity/suite/eddsa2022/eddsa2022.go", "verifiable/data_integrity_proof.go", "verifiable/embedded_proof.go"],
     [("one proof at a time, options, expiry, expectations", "dataintegrity (Verifier).VerifyProof"),
      ("method resolution by purpose", "dataintegrity resolveVM / getVMByPurpose"),
      ("what is hashed", "suite transformAndHash / proofConfig"),
      ("proof dispatch", "verifiable checkEmbeddedProof")],
     "seeded exploration; what was signed is compared in RDF canonical form computed by json-gold alone, outside the code under test",
     observe=["(Verifier).VerifyProof", "(Signer).AddProof", "verifiable.ParseCredential"])
prop("C08", "A presentation is accepted only with its signer's proof over its content",
     "Parsing a presentation in any form (JWT, COSE, linked data proof, data integrity proof, bare or enveloped) succeeds only if every proof on it was made over exactly that content and those proof options by a key which the DID document of the DID named in the proof lists, and if each credential embedded as a token passes its issuer's proof check. What the parsed presentation says is what was signed; an expected purpose, challenge or domain that a data integrity proof lacks, a missing proof or proof checker, and (with the holder check on) a self-issued credential whose issuer is not the holder are refused. A genuine presentation delivered intact is accepted.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "for every form, envelope and mix of embedded credentials, every alteration, replay, re-signing and recombination of presentations, proofs and credentials, every key rotation, registry and context server fault, and every interleaving of holders and verifiers sharing a proof checker",
     "The tests parse fixed presentations with one fixed key; none combines forms with forged or replayed embedded credentials, strips or swaps proofs and envelopes, or rotates keys and fails the registry while presentations are checked.",
     ["verifiable/presentation.go", "verifiable/presentation_parser.go", "verifiable/presentation_jws.go", "verifiable/presentation_jwt.go", "verifiable/presentation_cwt.go", "verifiable/presentation_ldp.go", "verifiable/embedded_proof.go", "cwt/cwt.go"],
     [("choice of form and proof check", "verifiable/presentation_parser.go"),
      ("embedded credentials", "verifiable/presentation.go decodeCredentials"),
      ("holder check", "verifiable/presentation.go validateHolder")],
     "seeded exploration; the verdict of every parse is compared with the record of what each simulated holder, issuer and attacker signed and with the DID document versions the registry answered with",
     observe=["verifiable.ParsePresentation"])

prop("C12", "Credentials, presentations, signers and verifiers can be shared",
     "Any number of concurrent users of the same credentials, presentations, signers, proof checkers, verifiers, document loaders and option lists each get exactly the outcome they would have got alone: reading, serializing, checking, presenting, deriving and signing do not change what is shared, not even the spare room of a list. What is derived from a credential or copied from a presentation is its owner's: changing it changes neither the original nor other copies. There are no data races and no crashes.",
     ["schedules", "histories", "faults", "inputs"],
     "for every interleaving of two to four users, every choice of operations on unsigned, JWT, SD-JWT, CWT, linked-data and data-integrity credentials and presentations of them, as issued or as received, and any failing or slow resolver or context fetch",
     "The tests use every object once, from one goroutine; none shares one, compares it before and after an operation, or looks at what a copy still has in common with its original.",
     ["verifiable/credential.go", "verifiable/presentation.go", "verifiable/credential_sdjwt.go", "verifiable/linked_data_proof.go", "sdjwt/issuer/issuer.go"],
     [("copying what is derived", "verifiable copyCredentialJSONWithoutProofs, Presentation.Clone, Credential.WithModified*"),
      ("random source of the issuer", "sdjwt/issuer NewFromVC, generateSalt")],
     "seeded exploration under the race detector: each operation's outcome is compared with its outcome alone, shared objects with deep dumps of before",
     observe=["verifiable.Credential", "verifiable.Presentation"], race=4)

prop("C15", "The in-memory store is linearizable and keeps its own copies",
     "However goroutines interleave, the operations of an in-memory storage provider and its stores (open, close, configuration, put, get, bulk get, query, delete, batch) have the outcomes of some sequential order that respects real time; a batch, a bulk read and a query, with any number of criteria, are each one atomic step. What is stored changes only through these operations: not by reusing memory handed to or returned by the store, not by closing an old handle of a store that was reopened. There are no data races, and an iterator always yields exactly its query's snapshot.",
     ["schedules", "histories", "inputs"],
     "for every interleaving, at statement granularity, of two to four clients over shared and reopened stores, every mix of operations and invalid arguments, and every later reuse of memory by the callers",
     "The tests call each operation from one goroutine; none overlaps operations, checks a history, reuses a buffer, or closes a handle twice around a reopening.",
     ["legacy/mem/mem.go"],
     [("one lock per provider and per store", "legacy/mem Provider.lock, memStore.RWMutex"),
      ("multi-criteria queries", "legacy/mem (memStore).Query")],
     "seeded exploration under the race detector: every history is searched for a linearization against a sequential model",
     observe=["mem.Provider", "spi.Store"], race=4)

prop("C16", "A wallet's answer to a presentation request is right and discloses no more",
     "A presentation definition is answered exactly if the wallet's credentials satisfy it (formats, schemas, field paths and filters, subject-is-issuer, nested submission requirements), and the submission then maps each chosen descriptor to every credential that answers it, and to nothing else, at the place where that credential really is. A credential whose disclosure is limited shows what the definition's fields select, the mandatory members and nothing more, a predicate field only its truth, and an SD-JWT stays the issuer's token with a subset of its disclosures. The wallet's credentials and the definition are never changed, by any number of concurrent answers, and a context loader's failure fails the answer instead of altering it.",
     ["inputs", "faults", "schedules"],
     "for every wallet of signed JWT, linked-data and SD-JWT credentials with any issuance options, every definition of either version with any grouping and requirement tree, concurrent answers from the same credentials, and any failing or slow context fetch",
     "The tests answer a handful of definitions with hand-made credentials, one at a time, and compare counts; none enumerates which credentials satisfy a definition, compares what is disclosed with what was asked, or checks that the wallet's credentials survive.",
     ["presexch/definition.go", "presexch/internal/requirementlogic/requirementlogic.go", "util/json/json.go"],
     [("one path language for filtering and limiting", "presexch.selectFields / parseFieldPath"),
      ("limited copies instead of changed credentials", "presexch.limitDisclosure"),
      ("submission entries point to where credentials are", "presexch.merge")],
     "seeded exploration under the race detector with an independent path, filter, requirement and disclosure model",
     observe=["CreateVP", "CreateVPArray", "MatchSubmissionRequirement"], race=2)

prop("C17", "A presentation submission is accepted only for credentials that were presented",
     "A verifier's match of presentations against a definition succeeds only if each input descriptor is answered by a credential an issuer really issued, with its proof intact, which is part of the presentation it is attributed to and satisfies the descriptor's schemas and constraints. No submission a holder can write - whatever its paths, ids, nesting, literals or odd entries - and no failing registry or context fetch makes it accept anything else or crash. A submission made by an honest wallet for such credentials, in any presentation form and number, is accepted and attributed exactly as submitted.",
     ["inputs", "faults", "schedules"],
     "for every definition, every set of issued credentials, every presentation form (JSON, JWT, CWT, one or several) and submission place, every sequence of holder tampering, and failing registry or context fetches, with verifiers sharing options",
     "The tests match a few hand-made submissions with unsigned credentials and loaders that always answer; none has a holder who writes the paths, and none compares what is returned with what issuers issued and holders presented.",
     ["presexch/api.go", "presexch/definition.go", "verifiable/presentation_parser.go"],
     [("submission paths select parts of the presentation only", "presexch.selectVC / isPartOf"),
      ("descriptor coverage", "presexch.(*PresentationDefinition).evalSubmissionRequirements"),
      ("constraints are checked again on what was submitted", "presexch.getMatchedCreds")],
     "seeded exploration under the race detector of holder tampering and faults, with the issuers' own records and an independent constraint model as the oracle",
     observe=["Match"], race=2)

prop("C03", "Altered related resources never pass a credential's digests",
     "A credential with related resources is accepted only if, for each of them, the bytes a server delivered completely and successfully, at most the cache's minute ago, have every digest the credential states, in whichever encoding. Unaltered resources that could be fetched are accepted, malformed digests and failing, cut or altered downloads are refused and never crash, and every response is released. This holds alone, in presentations, for JSON and token credentials, and for any number of verifiers sharing the validator.",
     ["inputs", "faults", "schedules", "histories"],
     "for every set of resources and updates of them, every digest form and defect, every sequence of delivery faults, cache state and number of concurrent verifiers",
     "The tests fetch two fixed documents from a stub that answers at once; none alters, cuts, delays or updates a resource, shares the cache between verifiers, or uses the digest encodings the specification prescribes.",
     ["verifiable/related_resource.go", "verifiable/credential.go", "verifiable/presentation.go"],
     [("digests are checked for every resource", "verifiable.(*RelatedResourceValidator).Validate"),
      ("only complete, successful downloads are hashed and cached", "verifiable.(*RelatedResourceValidator).Fetch"),
      ("embedded credentials are covered", "verifiable.executeChecks")],
     "seeded exploration with a simulated network, the delivered bytes being the oracle",
     observe=["ParseCredential", "ParsePresentation", "RelatedResourceValidator.Validate"])

prop("C04", "A credential is accepted only if it conforms to the schemas it names",
     "Validation of a credential succeeds only if it conforms to every JSON schema it refers to, as delivered completely and successfully by the schema's own URL no longer ago than the cache's lifetime, or to the schema the caller chose; without any, the data model's mandatory members must be there. A conforming credential passes when its schemas can be fetched, a failing, cut or altered download never passes as a schema the credential conforms to and never falls back to a weaker check, and nothing crashes or leaks.",
     ["inputs", "faults", "schedules", "histories"],
     "for every schema, reference shape and schema update, every sequence of download faults and waits, with and without caches shared by concurrent verifiers, and every validation option",
     "The tests load one schema from a server that always answers; none updates a schema, lets a cache entry expire in the middle of a history, cuts or alters a download, or names several schemas.",
     ["verifiable/credential.go", "verifiable/cache.go", "verifiable/credential_parser.go"],
     [("schemas to conform to", "verifiable.getSchemaLoaders"),
      ("cached schemas expire", "verifiable.(*ExpirableSchemaCache).Get / Put"),
      ("downloads", "verifiable.loadJSONSchema")],
     "seeded exploration with a simulated network and clock, and an independent evaluation of the delivered schemas as the oracle",
     observe=["ParseCredential", "ValidateCredential"])
prop("C19", "A CWT credential is accepted only if its issuer's own key signed those bytes",
     "Checking a CWT (COSE) credential succeeds only if its exact protected header and payload were signed by a key which the DID document of the credential's stated issuer lists under the message's kid for a signing relationship, as the registry answered during that check; a wallet's CWT key-possession proof is bound in the same way to the issuer it names, or to the key it carries when no issuer is to be checked. A genuine credential delivered intact, as bytes, hex or in an envelope, is accepted, yields exactly the issued content, and reads the same again when it is parsed again or passed on. Anything forged, altered, truncated, ambiguous or signed by a rotated-out or foreign key is refused, and nothing crashes.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "for every COSE algorithm the module supports, every history of key rotations, every forged, recombined, altered or truncated message, every CBOR value JSON lacks, every form of delivery, every registry fault and stale answer, and every interleaving of issuers and verifiers sharing one proof checker",
     "The tests sign and parse one fixed CWT with one key; none rotates keys, moves header parameters, repeats or disguises map keys, signs credentials without optional dates, or lets the registry fail or answer late.",
     ["verifiable/credential_parser.go", "verifiable/credential_cwt.go", "verifiable/cose.go", "verifiable/cwt/cwt.go", "cwt/cwt.go", "cwt/wrappers.go", "proof/checker/checker.go", "vermethod/vdrkeyresolver.go"],
     [("message to credential decoding", "verifiable/credential_parser.go (CredentialCBORParser).Parse"),
      ("bytes that the signature covers", "verifiable/cwt.GetProofValue"),
      ("kid resolution, issuer binding, COSE_Key, signature check", "proof/checker/checker.go (ProofChecker).CheckCWTProof, cwt.CheckProof, cwt.ParseAndCheckProof")],
     "seeded exploration, about 110 runs/s per worker; the verdict of every check is compared with the record of what each simulated actor really signed and with the DID document versions the registry answered with",
     observe=["verifiable.ParseCredential", "cwt.ParseAndCheckProof"])

prop("C14", "No received bytes crash the process, hang it, or mean two things",
     "Whatever bytes another party sends - credentials and presentations in any form (JSON, JWT, SD-JWT, COSE, enveloped), bare tokens, disclosures, presentation definitions and submissions, DID configurations, DID documents, schemas, status lists and identity-hub answers - receiving them ends with a result or an error, never with a panic, endless recursion or a hang. Parsing the same bytes again gives the same verdict and the same content whatever the iteration order of maps, and every operation the library offers on what it accepted ends with a result or an error too.",
     ["inputs", "fault_sequences", "histories"],
     "for every structural or textual change of every kind of message, re-signed so that it survives the checks before the changed place, for every order in which maps are walked, every answer or failure of the services a message makes the library contact, and every sequence of operations on an accepted message",
     "The tests feed a few malformed documents to single functions; none re-signs altered messages so that deeper code sees them, combines them with operations on the accepted object or with answers of services the attacker runs, or varies the map iteration order.",
     ["verifiable/credential.go", "verifiable/credential_parser.go", "verifiable/presentation.go", "util/jsonschema/jsonschema.go", "jwt/jwt.go", "cwt/cwt.go", "sdjwt/common/common.go", "sdjwt/holder/holder.go", "sdjwt/verifier/verifier.go", "presexch/definition.go", "presexch/api.go", "status/status.go", "status/resolver/resolver.go", "didconfig/verifier/didconfig.go", "dataintegrity/verifier.go"],
     [("parsing of credentials and presentations", "verifiable.ParseCredential, verifiable.ParsePresentation"),
      ("answering a verifier and reading a wallet's answer", "presexch.(*PresentationDefinition).CreateVP / MatchSubmissionRequirement / Match"),
      ("SD-JWT disclosures", "sdjwt/common.GetDisclosureClaims / GetDisclosedClaims"),
      ("tokens", "jwt.ParseAndCheckProof, cwt.ParseAndCheckProof"),
      ("services a message names", "status.(*Client).VerifyStatus, verifiable.(*CredentialSchemaLoader), didconfig/verifier.VerifyDIDAndDomain")],
     "seeded exploration with a hostile peer that holds a registered key, about 200 runs/s per worker; every message is delivered twice with the map iteration order reseeded in between",
     observe=["verifiable.ParseCredential", "verifiable.ParsePresentation", "presexch.Match", "presexch.CreateVP"])

prop("C18", "Every form of a credential or presentation states the same contents",
     "However a credential or presentation came to be - parsed, created from contents, changed, copied, enveloped - its JSON and its typed contents state the same, and exactly what the history of operations put there. Marshalling it in any form the library offers (JSON, raw object, secured or unsecured JWT, minimised or not, CWT, envelope, inside a presentation) and parsing the result gives the same contents again, down to the whole second where a token's date claims carry no fractions. No operation changes the object it was applied to, none crashes, and a document that is only read and written keeps every member and spelling.",
     ["inputs", "histories", "schedules"],
     "for every combination of members and spellings the data models allow, every sequence of constructing, modifying, enveloping, marshalling and parsing, every branching of such histories, and concurrent users of the common ancestor",
     "The tests round-trip some fixed documents through one form each; none follows a modified or created credential through several forms, combines optional members in their several spellings, or checks that ancestors stay as they were.",
     ["verifiable/credential.go", "verifiable/common.go", "verifiable/credential_parser.go", "verifiable/credential_jwt.go", "verifiable/credential_cwt.go", "verifiable/presentation.go", "verifiable/presentation_jwt.go", "verifiable/presentation_cwt.go", "util/json/json.go"],
     [("contents to JSON and back", "verifiable.serializeCredentialContents, verifiable.parseCredentialContents"),
      ("modified copies", "verifiable.(*Credential).WithModified*"),
      ("token forms", "verifiable.(*Credential).CreateSignedJWTVC / CreateUnsecuredJWTVC / CreateSignedCOSEVC, (*JWTCredClaims).refineFromJWTClaims"),
      ("presentations", "verifiable.(*Presentation).MarshalJSON / MarshalCBOR / Clone, verifiable.ParsePresentation")],
     "seeded exploration of histories against a plain JSON reference model that follows the same operations, about 60 histories/s per worker",
     observe=["verifiable.ParseCredential", "CreateCredential", "WithModified*", "MarshalJSON"])

prop("C20", "A derived BBS credential states only what its issuer signed and was asked for",
     "Deriving a credential from one with BBS+ signatures - by a frame, a presentation definition's frame or limited disclosure - gives exactly the statements asked for, all of them the issuer's, with proofs made from the issuer's proofs for the nonce that was given; it changes neither the credential, the frame nor the caller's options, and gives nothing when a key or context cannot be had. A derived credential is accepted only if every statement on it and the options of every proof were signed by the stated issuer's own BBS key, as the registry answered during that check. Anything added, altered, recombined or signed by another key is refused, and what an honest holder derived is accepted.",
     ["inputs", "fault_sequences", "histories"],
     "for every frame, combination of claims, sets of BBS and other proofs, key rotation, registry and context server failure, and every change a holder or a person in the middle can make to a derived credential, its proofs and their bit vectors",
     "The tests derive a few fixed credentials with one frame each; none adds statements or bits to a derived proof, mixes several proofs and keys, frames odd claims, or lets the registry and the context server fail or answer late.",
     ["verifiable/credential_bbs.go", "verifiable/bbs_selective_disclosure.go", "crypto-ext/verifiers/bbs/verifier.go", "proof/ldproofs/bbsblssignatureproof2020/proof.go", "proof/ldproofs/bbsblssignature2020/proof.go", "presexch/definition.go", "verifiable/embedded_proof.go", "proof/checker/checker.go"],
     [("derivation", "verifiable.(*Credential).GenerateBBSSelectiveDisclosure, verifiable.BBSSelectiveDisclosure"),
      ("frames made of a definition's limited disclosure", "presexch.createNewCredential"),
      ("verification of derived proofs", "crypto-ext/verifiers/bbs.(*G2SignatureProofVerifier).Verify")],
     "seeded exploration with real BBS+ cryptography, about 6 runs/s per worker; what is derived or accepted is compared, statement by statement, with the record of what each simulated issuer signed and with the DID document versions the registry answered with",
     observe=["verifiable.BBSSelectiveDisclosure", "verifiable.ParseCredential", "presexch.CreateVP"])

prop("C13", "Issuing is all or nothing and puts exactly the asked proof on the document",
     "Putting a proof on a credential, presentation or DID document, or making a signed token of one (JWT, COSE, SD-JWT, key binding), either fails and leaves the document as it was with nothing issued, or ends with the document unchanged except for one new proof that stands after all earlier ones and carries exactly the options asked for. It never ends well when the signing service, the key lookup, the DID registry or the context server failed it, and never fails when they all worked. What was issued verifies, says what its source said, and is signed by the asked key over exactly those bytes.",
     ["inputs", "fault_sequences", "schedules"],
     "for every document, every sequence of proofs of mixed kinds put on it, every combination of options, every point at which the signing service, key lookup, registry or context server fails, stalls or signs and then reports an error, and concurrent issuers that share them",
     "The tests sign fixed documents once with collaborators that always work, or always fail; none stacks proofs of different kinds, compares the document after a failure, or runs several issuers over one signer.",
     ["verifiable/linked_data_proof.go", "verifiable/data_integrity_proof.go", "verifiable/lddocument/signer.go", "dataintegrity/signer.go", "dataintegrity/suite/ecdsa2019/ecdsa2019.go", "dataintegrity/suite/eddsa2022/eddsa2022.go", "verifiable/did_ldp.go", "verifiable/did_data_integrity.go", "verifiable/credential.go", "verifiable/presentation_jwt.go", "verifiable/presentation_cwt.go", "verifiable/cose.go", "verifiable/credential_sdjwt.go", "sdjwt/issuer/issuer.go", "proof/creator/creator.go"],
     [("embedded proofs", "verifiable.(*Credential|*Presentation).AddLinkedDataProof / AddDataIntegrityProof"),
      ("DID documents", "verifiable.AddDIDLinkedDataProof / AddDIDDataIntegrityProof / VerifyDIDProof"),
      ("tokens", "verifiable.(*Credential).CreateSignedJWTVC / CreateSignedCOSEVC / MakeSDJWT / MarshalWithDisclosure, (*Presentation).CreateJWTVP / CreateCWTVP")],
     "seeded exploration with real signature suites, about 20 runs/s per worker; the signing service records what it signed",
     observe=["AddLinkedDataProof", "AddDataIntegrityProof", "CreateSignedJWTVC", "MakeSDJWT"])
