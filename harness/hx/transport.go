package hx

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"sync"
)

// Transport replaces http.DefaultTransport: every request of the code under
// test goes to the current Handler.
type Transport struct {
	mu      sync.Mutex
	Handler func(req *http.Request, body []byte) (*http.Response, error)
}

func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	t.mu.Lock()
	h := t.Handler
	t.mu.Unlock()
	if h == nil {
		return nil, errors.New("no network")
	}
	resp, err := h(req, body)
	if resp != nil {
		resp.Request = req
	}
	return resp, err
}

func (t *Transport) Set(h func(req *http.Request, body []byte) (*http.Response, error)) {
	t.mu.Lock()
	t.Handler = h
	t.mu.Unlock()
}

var theTransport = &Transport{}

// InstallTransport makes all default clients use the scripted transport.
func InstallTransport() *Transport {
	http.DefaultTransport = theTransport
	http.DefaultClient = &http.Client{Transport: theTransport}
	return theTransport
}

// Body is a response body that knows whether it was closed or read to its end.
type Body struct {
	mu       sync.Mutex
	r        *bytes.Reader
	failAt   int
	n        int
	Released bool
}

func NewBody(s string, failAt int) *Body {
	return &Body{r: bytes.NewReader([]byte(s)), failAt: failAt}
}

func (b *Body) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.failAt >= 0 && b.n >= b.failAt {
		b.Released = true
		return 0, errors.New("connection reset while reading body")
	}
	if b.failAt >= 0 && len(p) > b.failAt-b.n {
		p = p[:b.failAt-b.n]
	}
	n, err := b.r.Read(p)
	b.n += n
	if err == io.EOF {
		b.Released = true
	}
	return n, err
}

func (b *Body) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.Released = true
	return nil
}

func (b *Body) IsReleased() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.Released
}

// Response builds an HTTP response.
func Response(code int, body io.ReadCloser) *http.Response {
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: body, ContentLength: -1}
}
