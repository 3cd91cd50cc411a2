package world

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"vcsim/core"
	"vcsim/simrt"
)

// Resource is what an HTTP server of the simulated network serves.
type Resource struct {
	Status int
	Type   string
	Body   []byte
	Header http.Header
}

// Fault kinds of the network. Each is drawn per request.
type NetFault int

const (
	NetOK NetFault = iota
	NetRefused
	NetTimeout   // no answer until the client gives up, or for an hour
	NetReset     // the connection is reset before an answer
	NetDropLate  // the answer is lost after the server acted on the request
	NetStatus    // an error status, with a body
	NetStatusDoc // an error status, with the right body
	NetTruncated // the body ends early, cleanly
	NetBodyErr   // the body breaks off with an error
	NetBodyErr0  // the body breaks off at once
	NetEmpty     // 200 with an empty body
	NetGarbled   // some bytes of the body are damaged
	NetStale     // an earlier version of the resource
	NetWrong     // another resource of the same server
	NetHTML      // a captive portal's answer
	NetSlow      // a late but right answer
	NetSlowBody  // a right answer that trickles
	NetDup       // the body is delivered twice
	netFaults
)

var netNames = [...]string{"ok", "http-refused", "http-timeout", "http-reset", "http-answer-lost", "http-error-status", "http-error-status-with-document",
	"http-body-truncated", "http-body-read-error", "http-body-read-error-at-once", "http-empty-body", "http-body-garbled", "http-stale",
	"http-wrong-resource", "http-html", "http-slow", "http-slow-body", "http-body-twice"}

// Exchange is one request and what became of it.
type Exchange struct {
	URL    string
	Fault  NetFault
	Served []byte // what a client that reads everything got
	Err    bool   // the client could not have read an answer in full
	Status int
	Body   *Body
	Task   int
	At     time.Time
	Done   time.Time // the body was read in full
}

// Net is the simulated HTTP network.
type Net struct {
	R     *core.Run
	Rate  int // 1/1000 of requests meet a fault
	Allow []NetFault
	Log   []*Exchange
	urls  []string
	res   [][]*Resource
	Next  []NetFault // forced faults for the next requests
}

// NewNet makes an empty network.
func NewNet(r *core.Run) *Net { return &Net{R: r} }

// Serve publishes (a new version of) a resource.
func (n *Net) Serve(url string, r *Resource) {
	if r.Status == 0 {
		r.Status = 200
	}

	for i, u := range n.urls {
		if u == url {
			n.res[i] = append(n.res[i], r)

			return
		}
	}

	n.urls = append(n.urls, url)
	n.res = append(n.res, []*Resource{r})
}

// Get returns the current version of a resource.
func (n *Net) Get(url string) *Resource {
	for i, u := range n.urls {
		if u == url {
			return n.res[i][len(n.res[i])-1]
		}
	}

	return nil
}

// Client is an http.Client of the network.
func (n *Net) Client() *http.Client { return &http.Client{Transport: n} }

// Do is the plain HTTP client interface.
func (n *Net) Do(req *http.Request) (*http.Response, error) { return n.RoundTrip(req) }

// Open counts response bodies nobody closed.
func (n *Net) Open() []string {
	var o []string

	for _, e := range n.Log {
		if e.Body != nil && !e.Body.closed {
			o = append(o, fmt.Sprintf("%s (status %d, fault %s)", e.URL, e.Status, netNames[e.Fault]))
		}
	}

	return o
}

// Window lists the calling task's exchanges since position from of the log.
func (n *Net) Window(from int) []*Exchange {
	var o []*Exchange

	id := simrt.TaskID()

	for _, e := range n.Log[from:] {
		if e.Task == id {
			o = append(o, e)
		}
	}

	return o
}

// FaultName names the fault of an exchange.
func (e *Exchange) FaultName() string { return netNames[e.Fault] }

// Last exchange.
func (n *Net) Last() *Exchange {
	if len(n.Log) == 0 {
		return nil
	}

	return n.Log[len(n.Log)-1]
}

// RoundTrip implements http.RoundTripper.
func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	simrt.Step()

	url := req.URL.String()
	ex := &Exchange{URL: url, Task: simrt.TaskID(), At: time.Now()}
	n.Log = append(n.Log, ex)

	if err := req.Context().Err(); err != nil {
		ex.Err = true

		return nil, err
	}

	f := NetOK

	if len(n.Next) > 0 {
		f, n.Next = n.Next[0], n.Next[1:]

		if f != NetOK {
			n.R.FaultFired(netNames[f])
		}
	} else if n.Rate > 0 && n.R.Chance(n.Rate, 1000, "net-fault") {
		if len(n.Allow) > 0 {
			f = n.Allow[n.R.Choose(len(n.Allow), "net-kind")]
		} else {
			f = NetFault(1 + n.R.Choose(int(netFaults)-1, "net-kind"))
		}

		if f != NetOK {
			n.R.FaultFired(netNames[f])
		}
	}

	ex.Fault = f
	cur := &Resource{Status: 404, Type: "text/plain", Body: []byte("not found")}

	idx := -1

	for i, u := range n.urls {
		if u == url {
			idx = i
			cur = n.res[i][len(n.res[i])-1]
		}
	}

	fail := func(err error) (*http.Response, error) {
		ex.Err = true

		return nil, err
	}

	switch f {
	case NetRefused:
		return fail(errors.New("dial tcp: connection refused"))
	case NetReset, NetDropLate:
		n.pause(req.Context(), time.Second)

		return fail(errors.New("read tcp: connection reset by peer"))
	case NetTimeout:
		n.pause(req.Context(), time.Hour)

		if err := req.Context().Err(); err != nil {
			return fail(err)
		}

		return fail(errors.New("net/http: timeout awaiting response headers"))
	case NetSlow:
		n.pause(req.Context(), time.Duration(n.R.N(1, 90, "slow"))*time.Second)

		if err := req.Context().Err(); err != nil {
			return fail(err)
		}
	}

	r := *cur

	switch f {
	case NetStatus:
		r = Resource{Status: []int{500, 503, 404, 403, 429, 301, 204, 201, 206}[n.R.Choose(9, "status")], Type: "application/json", Body: []byte(`{"error":"no"}`)}
	case NetStatusDoc:
		r.Status = []int{500, 203, 404, 403, 429, 410, 400, 206, 304}[n.R.Choose(9, "status")]
	case NetTruncated:
		if len(r.Body) > 0 {
			r.Body = r.Body[:n.R.Choose(len(r.Body), "cut")]
		}
	case NetEmpty:
		r.Body = nil
	case NetGarbled:
		r.Body = Garble(n.R, r.Body)
	case NetStale:
		if idx >= 0 && len(n.res[idx]) > 1 {
			r = *n.res[idx][n.R.Choose(len(n.res[idx])-1, "stale")]
		}
	case NetWrong:
		if len(n.urls) > 0 {
			k := n.R.Choose(len(n.urls), "wrong")
			r = *n.res[k][len(n.res[k])-1]
		}
	case NetHTML:
		r = Resource{Status: 200, Type: "text/html", Body: []byte("<html><body>Please log in</body></html>")}
	case NetDup:
		r.Body = append(append([]byte{}, r.Body...), r.Body...)
	}

	b := &Body{n: n, data: r.Body, fail: -1, ex: ex}

	switch f {
	case NetBodyErr:
		b.fail = 0
		if len(r.Body) > 0 {
			b.fail = n.R.Choose(len(r.Body), "cut")
		}

		ex.Err = true
	case NetBodyErr0:
		b.fail = 0
		ex.Err = true
	case NetSlowBody:
		b.slow = true
	}

	ex.Status, ex.Body, ex.Served = r.Status, b, r.Body

	h := r.Header.Clone()
	if h == nil {
		h = http.Header{}
	}

	if r.Type != "" {
		h.Set("Content-Type", r.Type)
	}

	return &http.Response{
		Status: fmt.Sprintf("%d %s", r.Status, http.StatusText(r.Status)), StatusCode: r.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: b, ContentLength: -1, Request: req,
	}, nil
}

func (n *Net) pause(ctx context.Context, d time.Duration) {
	t := time.NewTimer(d)
	defer t.Stop()

	select {
	case <-t.C:
	case <-ctx.Done():
	}

	simrt.Step()
}

// Body is a response body that notices whether it was closed.
type Body struct {
	n      *Net
	data   []byte
	pos    int
	fail   int
	slow   bool
	closed bool
	ex     *Exchange
}

func (b *Body) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}

	if b.slow {
		b.n.R.Sleep(time.Second)
	}

	end := len(b.data)
	if b.fail >= 0 {
		end = b.fail
	}

	if b.pos >= end {
		if b.fail >= 0 {
			return 0, io.ErrUnexpectedEOF
		}

		if b.ex.Done.IsZero() {
			b.ex.Done = time.Now()
		}

		return 0, io.EOF
	}

	m := len(p)
	if b.slow && m > 64 {
		m = 64
	}

	k := copy(p[:m], b.data[b.pos:end])
	b.pos += k

	return k, nil
}

// Close marks the body closed.
func (b *Body) Close() error {
	b.closed = true

	return nil
}

// Garble damages some bytes.
func Garble(r *core.Run, in []byte) []byte {
	b := bytes.Clone(in)
	if len(b) == 0 {
		return []byte{byte(r.Choose(256, "byte"))}
	}

	switch r.Choose(5, "garble") {
	case 0, 1: // one byte becomes another
		i := r.Choose(len(b), "at")
		b[i] ^= byte(1 + r.Choose(255, "xor"))
	case 2: // a byte is lost
		i := r.Choose(len(b), "at")
		b = append(b[:i], b[i+1:]...)
	case 3: // a byte too many
		i := r.Choose(len(b), "at")
		b = append(b[:i], append([]byte{byte(r.Choose(256, "byte"))}, b[i:]...)...)
	case 4: // a torn write: the tail is zero
		i := r.Choose(len(b), "at")
		for ; i < len(b); i++ {
			b[i] = 0
		}
	}

	return b
}

// GarbleText damages a textual token at one place, keeping it text.
func GarbleText(r *core.Run, s string) string {
	if s == "" {
		return "x"
	}

	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	i := r.Choose(len(s), "at")

	for {
		c := al[r.Choose(len(al), "char")]
		if c != s[i] {
			return s[:i] + string(c) + s[i+1:]
		}

		if strings.Count(s, s) == 0 {
			return s
		}

		// the replay list may have run dry (always the same choice): take another character
		return s[:i] + string(al[(strings.IndexByte(al, c)+1)%len(al)]) + s[i+1:]
	}
}
