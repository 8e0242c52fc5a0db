//go:build go1.21

// Package lib is the closed environment of the model checks: identity provider, Kubernetes API,
// tokens, adapter assembly, response classification, evidence.
package lib

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jwt "github.com/dgrijalva/jwt-go/v4"
	"go.uber.org/zap"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vclock"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vnet"
)

// Answer is what the environment replies to one upstream request.
type Answer struct {
	Err    error
	Status int
	Body   string
	// Trunc makes the body fail with an unexpected EOF after Body
	Trunc bool
	// Header adds to the headers of the answer
	Header http.Header
}

func (a Answer) headers() http.Header {
	h := http.Header{"Content-Type": {"application/json"}}
	for k, v := range a.Header {
		h[k] = v
	}
	return h
}

// Rec is one observed upstream request.
type Rec struct {
	Method, URL, Path string
	Header            http.Header
	Body              string
	Form              url.Values
	Deadline          bool          // the request carries a bounded wait
	Wait              time.Duration // the bound
	closed            *int32
}

// Closed tells whether the response body was closed.
func (r *Rec) Closed() bool { return atomic.LoadInt32(r.closed) != 0 }

// Site answers the requests below one path prefix.
type Site interface {
	Serve(r *Rec, rest string) Answer
}

type router struct {
	mu    sync.RWMutex
	sites map[string]Site
}

var (
	rt       = &router{sites: map[string]Site{}}
	baseURL  string
	initOnce sync.Once
	// Point, if set, is called at every upstream request (scheduling point)
	Point func(string)
	// FallbackHits counts requests that did not come through http.DefaultTransport
	FallbackHits int64
)

var (
	direct          sync.Map
	directTransport = &http.Transport{MaxIdleConns: 2000, DisableCompression: true}
)

// Direct lets requests to a host of the harness go through real sockets.
func Direct(host string) func() {
	direct.Store(host, true)
	return func() { direct.Delete(host) }
}

// Base returns the URL prefix of the site registered under id.
func Base(id string) string { InitNet(); return baseURL + "/" + id }

// InitNet replaces http.DefaultTransport and opens the loopback listener that serves the same sites.
func InitNet() {
	initOnce.Do(func() {
		zap.ReplaceGlobals(zap.NewNop())
		vnet.Network = rt
		jwt.TimeFunc = vclock.Now
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			baseURL = "http://127.0.0.1:1"
		} else {
			baseURL = "http://" + l.Addr().String()
			srv := &http.Server{Handler: http.HandlerFunc(rt.serveLoopback)}
			srv.SetKeepAlivesEnabled(false)
			go func() { _ = srv.Serve(l) }()
		}
		// Serve http:// below the default transport, whose type stays what it was.
		if t, ok := http.DefaultTransport.(*http.Transport); ok {
			t.RegisterProtocol("http", rt)
		} else {
			http.DefaultTransport = rt
		}
	})
}

// Register adds a site and returns its id.
func Register(id string, s Site) {
	InitNet()
	rt.mu.Lock()
	rt.sites[id] = s
	rt.mu.Unlock()
}

// Unregister removes a site.
func Unregister(id string) {
	rt.mu.Lock()
	delete(rt.sites, id)
	rt.mu.Unlock()
}

func (t *router) lookup(path string) (Site, string) {
	p := strings.TrimPrefix(path, "/")
	id, rest := p, ""
	if i := strings.Index(p, "/"); i >= 0 {
		id, rest = p[:i], p[i+1:]
	}
	t.mu.RLock()
	s := t.sites[id]
	t.mu.RUnlock()
	return s, rest
}

type trackedBody struct {
	io.Reader
	closed *int32
}

func (b *trackedBody) Close() error { atomic.StoreInt32(b.closed, 1); return nil }

type truncReader struct{ r io.Reader }

func (t truncReader) Read(p []byte) (int, error) {
	n, err := t.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// RoundTrip implements http.RoundTripper.
func (t *router) RoundTrip(req *http.Request) (*http.Response, error) {
	if Point != nil {
		Point("net " + req.URL.Path)
	}
	if _, ok := direct.Load(req.URL.Host); ok {
		return directTransport.RoundTrip(req)
	}
	body := ""
	if req.Body != nil {
		b, _ := io.ReadAll(req.Body)
		_ = req.Body.Close()
		body = string(b)
	}
	dl, has := req.Context().Deadline()
	rec := &Rec{Method: req.Method, URL: req.URL.String(), Path: req.URL.Path, Header: req.Header.Clone(), Body: body, Deadline: has, closed: new(int32)}
	if has {
		rec.Wait = time.Until(dl)
	}
	rec.Form, _ = url.ParseQuery(body)
	site, rest := t.lookup(req.URL.Path)
	if site == nil || !strings.HasPrefix(req.URL.String(), baseURL) {
		if g := current(); g != nil {
			g.elsewhere(rec)
		}
		return nil, fmt.Errorf("no such host: %s", req.URL.Host)
	}
	a := site.Serve(rec, rest)
	if Point != nil {
		Point("net reply " + req.URL.Path)
	}
	if a.Err != nil {
		return nil, a.Err
	}
	var rd io.Reader = strings.NewReader(a.Body)
	if a.Trunc {
		rd = truncReader{rd}
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", a.Status, http.StatusText(a.Status)), StatusCode: a.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: a.headers(), ContentLength: -1,
		Body: &trackedBody{rd, rec.closed}, Request: req,
	}, nil
}

func (t *router) serveLoopback(w http.ResponseWriter, req *http.Request) {
	atomic.AddInt64(&FallbackHits, 1)
	b, _ := io.ReadAll(req.Body)
	one := int32(1)
	rec := &Rec{Method: req.Method, URL: baseURL + req.URL.String(), Path: req.URL.Path, Header: req.Header.Clone(), Body: string(b), Deadline: true, closed: &one}
	rec.Form, _ = url.ParseQuery(rec.Body)
	site, rest := t.lookup(req.URL.Path)
	if site == nil {
		w.WriteHeader(404)
		return
	}
	a := site.Serve(rec, rest)
	if a.Err != nil || a.Trunc {
		if hj, ok := w.(http.Hijacker); ok {
			if c, _, err := hj.Hijack(); err == nil {
				if a.Trunc {
					_, _ = fmt.Fprintf(c, "HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n%s", a.Status, len(a.Body)+10, a.Body)
				}
				_ = c.Close()
				return
			}
		}
	}
	for k, v := range a.headers() {
		w.Header()[k] = v
	}
	w.WriteHeader(a.Status)
	_, _ = io.Copy(w, bytes.NewReader([]byte(a.Body)))
}

// ErrNet is the injected transport error.
var ErrNet = errors.New("injected: connection refused")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "injected: i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// ErrTimeout is the injected timeout.
var ErrTimeout error = timeoutErr{}
