package world

import (
	"errors"
	"fmt"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"vcsim/core"
	"vcsim/simrt"
)

// Entry is one verification method in a simulated DID document.
type Entry struct {
	Fragment string
	ID       string // overrides the method's full id
	Key      *Key
	Type     string // verification method type; "" JsonWebKey2020
	Rels     []did.VerificationRelationship
}

// Version is one version of a DID document.
type Version struct {
	DID     string
	Entries []Entry
	Service []did.Service
	Doc     *did.Doc
}

// VMID is the id of a verification method in the document.
func (v *Version) VMID(e Entry) string {
	if e.ID != "" {
		return e.ID
	}

	return v.DID + "#" + e.Fragment
}

func (v *Version) build() {
	d := &did.Doc{ID: v.DID, Context: []string{"https://www.w3.org/ns/did/v1"}, Service: v.Service}

	for _, e := range v.Entries {
		vm := e.Key.VM(v.VMID(e), v.DID, e.Type)
		general := false

		for _, r := range e.Rels {
			// as read from a document that spells the key out under one relationship
			ver := did.Verification{VerificationMethod: vm, Relationship: r, Embedded: len(e.Rels) == 1 && r != did.VerificationRelationshipGeneral}

			switch r {
			case did.Authentication:
				d.Authentication = append(d.Authentication, ver)
			case did.AssertionMethod:
				d.AssertionMethod = append(d.AssertionMethod, ver)
			case did.KeyAgreement:
				d.KeyAgreement = append(d.KeyAgreement, ver)
			case did.CapabilityDelegation:
				d.CapabilityDelegation = append(d.CapabilityDelegation, ver)
			case did.CapabilityInvocation:
				d.CapabilityInvocation = append(d.CapabilityInvocation, ver)
			case did.VerificationRelationshipGeneral:
				general = true
			}
		}

		if general {
			d.VerificationMethod = append(d.VerificationMethod, vm)
		}
	}

	v.Doc = d
}

// Resolution is one answered lookup.
type Resolution struct {
	DID     string
	Version *Version // nil: failed
	Task    int
}

// Registry is the DID registry the code under test resolves against. It is a real network service
// in deployments; here every call may be slow, fail, or serve an old version of a document.
type Registry struct {
	R      *core.Run
	dids   []*history
	actors int
	Log    []Resolution
	// fault rates, in 1/1000
	Fail, Stale, Slow int
}

type history struct {
	did  string
	vers []*Version
}

// NewRegistry makes an empty registry.
func NewRegistry(r *core.Run) *Registry { return &Registry{R: r} }

// Publish adds a version of a DID document.
func (g *Registry) Publish(id string, entries ...Entry) *Version {
	return g.PublishSvc(id, nil, entries...)
}

// PublishSvc is Publish with services.
func (g *Registry) PublishSvc(id string, svc []did.Service, entries ...Entry) *Version {
	v := &Version{DID: id, Entries: entries, Service: svc}
	v.build()

	for _, h := range g.dids {
		if h.did == id {
			h.vers = append(h.vers, v)

			return v
		}
	}

	g.dids = append(g.dids, &history{id, []*Version{v}})

	return v
}

// Deactivate makes id unresolvable.
func (g *Registry) Deactivate(id string) {
	for i, h := range g.dids {
		if h.did == id {
			g.dids = append(g.dids[:i:i], g.dids[i+1:]...)

			return
		}
	}
}

// Latest version of id.
func (g *Registry) Latest(id string) *Version {
	for _, h := range g.dids {
		if h.did == id {
			return h.vers[len(h.vers)-1]
		}
	}

	return nil
}

// ErrUnavailable is an injected resolver failure.
var ErrUnavailable = errors.New("sim: DID registry unavailable")

// Window lists the calling task's answers since position from of the log.
func (g *Registry) Window(from int) []Resolution {
	var o []Resolution

	id := simrt.TaskID()

	for _, e := range g.Log[from:] {
		if e.Task == id {
			o = append(o, e)
		}
	}

	return o
}

// Resolve implements the resolver the code under test is given.
func (g *Registry) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	simrt.Step()

	if g.Slow > 0 && g.R.Fault("did-resolver-slow", g.Slow, 1000) {
		g.R.Sleep(time.Duration(g.R.N(1, 40, "slow")) * time.Second)
	}

	if g.Fail > 0 && g.R.Fault("did-resolver-unavailable", g.Fail, 1000) {
		g.Log = append(g.Log, Resolution{id, nil, simrt.TaskID()})

		return nil, ErrUnavailable
	}

	for _, h := range g.dids {
		if h.did != id {
			continue
		}

		v := h.vers[len(h.vers)-1]

		if len(h.vers) > 1 && g.Stale > 0 && g.R.Fault("did-resolver-stale", g.Stale, 1000) {
			v = h.vers[g.R.Choose(len(h.vers)-1, "stale")]
		}

		g.Log = append(g.Log, Resolution{id, v, simrt.TaskID()})

		return &did.DocResolution{DIDDocument: v.Doc}, nil
	}

	g.Log = append(g.Log, Resolution{id, nil, simrt.TaskID()})

	return nil, fmt.Errorf("DID %s does not exist: %w", id, vdrapi.ErrNotFound)
}
