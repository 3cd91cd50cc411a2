package world

import (
	"errors"
	"fmt"
	"time"

	"github.com/trustbloc/did-go/doc/did"

	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/verifiable"

	"vcsim/core"
	"vcsim/simrt"
)

// ErrSigner is an injected failure of the remote signing service.
var ErrSigner = errors.New("sim: signing service unavailable")

// Signer is a remote signing service (a KMS) holding one key.
type Signer struct {
	K          *Key
	R          *core.Run
	Fail, Slow int // rates in 1/1000
	Calls      int
	Failures   int
}

// Sign implements the signer the code under test is given.
func (s *Signer) Sign(data []byte) ([]byte, error) {
	simrt.Step()

	s.Calls++

	if s.Slow > 0 && s.R.Fault("signer-slow", s.Slow, 1000) {
		s.R.Sleep(time.Duration(s.R.N(1, 30, "slow")) * time.Second)
	}

	if s.Fail > 0 && s.R.Fault("signer-unavailable", s.Fail, 1000) {
		s.Failures++

		return nil, ErrSigner
	}

	return s.K.Sign(data)
}

// Creator makes a proof creator that signs everything with s.
func Creator(s *Signer) *creator.ProofCreator { return CreatorOf(s) }

// CreatorOf makes a proof creator that signs everything with s.
func CreatorOf(s interface{ Sign([]byte) ([]byte, error) }) *creator.ProofCreator {
	return creator.New(
		creator.WithJWTAlg(eddsa.New(), s), creator.WithJWTAlg(es256.New(), s), creator.WithJWTAlg(es384.New(), s),
		creator.WithJWTAlg(es521.New(), s), creator.WithJWTAlg(es256k.New(), s), creator.WithJWTAlg(rs256.New(), s),
		creator.WithJWTAlg(ps256.New(), s),
		creator.WithLDProofType(ed25519signature2018.New(), s), creator.WithLDProofType(ed25519signature2020.New(), s),
		creator.WithLDProofType(jsonwebsignature2020.New(), s), creator.WithLDProofType(ecdsasecp256k1signature2019.New(), s),
	)
}

// JWSAlg of a key kind.
func JWSAlg(k Kind) verifiable.JWSAlgorithm {
	switch k {
	case Ed:
		return verifiable.EdDSA
	case P256:
		return verifiable.ECDSASecp256r1
	case P384:
		return verifiable.ECDSASecp384r1
	case P521:
		return verifiable.ECDSASecp521r1
	case K256:
		return verifiable.ECDSASecp256k1
	case RSA:
		return verifiable.RS256
	}

	return verifiable.PS256
}

// Actor owns a DID.
type Actor struct {
	R    *core.Run
	Reg  *Registry
	DID  string
	Cur  []Entry
	idx  int
	next int
}

// AllRels is every relationship but keyAgreement.
var AllRels = []did.VerificationRelationship{did.AssertionMethod, did.Authentication, did.CapabilityDelegation,
	did.CapabilityInvocation, did.VerificationRelationshipGeneral}

// NewActor publishes a DID with one key of each given kind.
func NewActor(r *core.Run, reg *Registry, id string, kinds ...Kind) *Actor {
	a := &Actor{R: r, Reg: reg, DID: id, idx: reg.actors}
	reg.actors++

	for i, k := range kinds {
		a.Cur = append(a.Cur, Entry{Fragment: fmt.Sprintf("key-%d", i+1), Key: a.newKey(k), Rels: []did.VerificationRelationship{did.AssertionMethod, did.Authentication}})
	}

	a.Publish()

	return a
}

func (a *Actor) newKey(k Kind) *Key {
	// distinct actors never share a key: the pool is split by DID
	a.next++

	if k == RSA || k == RSAPS {
		return GetKey(k, 2*(a.idx%4)+a.next%2)
	}

	return GetKey(k, 8+a.idx*8+a.next%8)
}

// Publish publishes the current entries as a new version.
func (a *Actor) Publish() *Version {
	return a.Reg.Publish(a.DID, append([]Entry{}, a.Cur...)...)
}

// KID of entry i.
func (a *Actor) KID(i int) string {
	if a.Cur[i].ID != "" {
		return a.Cur[i].ID
	}

	return a.DID + "#" + a.Cur[i].Fragment
}

// Rotate changes the actor's DID document in one of the ways real ones change, and publishes it.
func (a *Actor) Rotate() string {
	i := a.R.Choose(len(a.Cur), "rot-entry")
	e := a.Cur[i]
	what := ""

	switch a.R.Choose(5, "rotate") {
	case 0:
		e.Key = a.newKey(e.Key.Kind)
		what = "new key under the same id"
	case 1:
		e.Fragment = fmt.Sprintf("key-%d", 10+a.next)
		e.Key = a.newKey(e.Key.Kind)
		what = "new key under a new id"
	case 2:
		e.Rels = []did.VerificationRelationship{did.KeyAgreement}
		what = "key kept for key agreement only"
	case 3:
		e.Rels = [][]did.VerificationRelationship{{did.Authentication}, {did.AssertionMethod}, {did.VerificationRelationshipGeneral},
			{did.CapabilityInvocation}, {did.CapabilityDelegation}, {did.KeyAgreement, did.AssertionMethod}}[a.R.Choose(6, "rels")]
		what = fmt.Sprintf("key now for %v", e.Rels)
	case 4:
		if len(a.Cur) > 1 {
			a.Cur = append(append([]Entry{}, a.Cur[:i]...), a.Cur[i+1:]...)
			a.Publish()
			a.R.Logf("%s drops %s", a.DID, e.Fragment)

			return "dropped"
		}

		e.Key = a.newKey(e.Key.Kind)
		what = "new key under the same id"
	}

	n := append([]Entry{}, a.Cur...)
	n[i] = e
	a.Cur = n
	a.Publish()
	a.R.Logf("%s rotates entry %d: %s", a.DID, i, what)

	return what
}

// Lists reports whether version v lists key k under the method id, for one of rels (nil: any but
// key agreement).
func (v *Version) Lists(id string, k *Key, rels ...did.VerificationRelationship) bool {
	if v == nil {
		return false
	}

	for _, e := range v.Entries {
		if v.VMID(e) != id || e.Key != k {
			continue
		}

		for _, r := range e.Rels {
			if len(rels) == 0 && r != did.KeyAgreement {
				return true
			}

			for _, w := range rels {
				if r == w {
					return true
				}
			}
		}
	}

	return false
}
