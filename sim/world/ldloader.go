package world

import (
	"bytes"
	"errors"
	"time"

	"github.com/piprate/json-gold/ld"
	ldembed "github.com/trustbloc/did-go/doc/ld/context/embed"
	ldtestutil "github.com/trustbloc/did-go/doc/ld/testutil"

	"vcsim/core"
	"vcsim/simrt"
)

// DIDConfig is the context of domain linkage credentials.
const DIDConfig = "https://identity.foundation/.well-known/did-configuration/v1"

var ldDocs = map[string]*ld.RemoteDocument{}

func addContext(url, final string, content []byte) {
	d, err := ld.DocumentFromReader(bytes.NewReader(content))
	if err != nil {
		panic(err)
	}

	if final == "" {
		final = url
	}

	ldDocs[url] = &ld.RemoteDocument{DocumentURL: final, Document: d}
}

func init() {
	for _, c := range ldembed.Contexts {
		addContext(c.URL, c.DocumentURL, c.Content)
	}

	for _, c := range ldtestutil.Contexts() {
		addContext(c.URL, c.DocumentURL, c.Content)
	}

	addContext(DIDConfig, "", []byte(`{"@context":[{"@version":1.1,"@protected":true,
		"LinkedDomains":"https://identity.foundation/.well-known/resources/did-configuration/#LinkedDomains",
		"DomainLinkageCredential":"https://identity.foundation/.well-known/resources/did-configuration/#DomainLinkageCredential",
		"origin":"https://identity.foundation/.well-known/resources/did-configuration/#origin",
		"linked_dids":"https://identity.foundation/.well-known/resources/did-configuration/#linked_dids"}]}`))

	// a context every term of which the simulated credentials use is defined in
	addContext(PE, "", []byte(`{"@context":{"@version":1.1,"@vocab":"https://sim.example/vocab#",
		"AlphaCredential":"https://sim.example/pe#AlphaCredential","BetaCredential":"https://sim.example/pe#BetaCredential",
		"GammaCredential":"https://sim.example/pe#GammaCredential"}}`))

	addContext("https://sim.example/v1", "", []byte(`{"@context":{"@version":1.1,"@vocab":"https://sim.example/vocab#"}}`))
}

// Loader serves JSON-LD contexts, as a remote context server does.
type Loader struct {
	R          *core.Run
	Fail, Slow int // rates in 1/1000
	Failed     int // failures since the last reset
	extra      []extraCtx
}

type extraCtx struct {
	url string
	doc *ld.RemoteDocument
}

// NewLoader makes a loader for a run.
func NewLoader(r *core.Run) *Loader { return &Loader{R: r} }

// ErrContext is an injected context server failure.
var ErrContext = errors.New("sim: context server unavailable")

// LoadDocument implements ld.DocumentLoader.
func (l *Loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	if l.Slow > 0 && l.R.Fault("ld-context-slow", l.Slow, 1000) {
		simrt.Step()
		l.R.Sleep(time.Duration(l.R.N(1, 20, "slow")) * time.Second)
	}

	if l.Fail > 0 && l.R.Fault("ld-context-unavailable", l.Fail, 1000) {
		l.Failed++

		return nil, ErrContext
	}

	if d := ldDocs[u]; d != nil {
		return d, nil
	}

	for _, e := range l.extra {
		if e.url == u {
			return e.doc, nil
		}
	}

	return nil, ld.NewJsonLdError(ld.LoadingDocumentFailed, errors.New("sim: no such context: "+u))
}
