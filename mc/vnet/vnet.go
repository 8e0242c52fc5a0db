//go:build go1.21

// Package vnet makes the code's own http.Transports reach the harness's network.
package vnet

import (
	"io"
	"net/http"
	"sync/atomic"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vsched"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vsync"
)

// Network is where requests go.
var Network http.RoundTripper

// Adopt serves http:// requests of a transport from Network. Its limit on connections per host keeps its effect.
func Adopt(t *http.Transport) *http.Transport {
	if t == nil {
		return t
	}
	a := &adopted{t: t, used: map[string]int{}}
	a.cond = vsync.NewCond(&a.mu)
	func() {
		defer func() { _ = recover() }() // already adopted
		t.RegisterProtocol("http", a)
	}()
	return t
}

type adopted struct {
	t    *http.Transport
	mu   vsync.Mutex
	cond *vsync.Cond
	used map[string]int
}

// take waits for a connection.
func (a *adopted) take(req *http.Request) error {
	n, host := a.t.MaxConnsPerHost, req.URL.Host
	if vsched.On() {
		a.mu.Lock()
		for a.used[host] >= n {
			a.cond.Wait()
		}
		a.used[host]++
		a.mu.Unlock()
		return nil
	}
	for {
		a.mu.Lock()
		ok := a.used[host] < n
		if ok {
			a.used[host]++
		}
		a.mu.Unlock()
		if ok {
			return nil
		}
		select {
		case <-req.Context().Done():
			return req.Context().Err()
		case <-time.After(time.Millisecond):
		}
	}
}

func (a *adopted) release(host string) {
	a.mu.Lock()
	a.used[host]--
	a.cond.Signal()
	a.mu.Unlock()
}

func (a *adopted) RoundTrip(req *http.Request) (*http.Response, error) {
	if a.t.MaxConnsPerHost <= 0 {
		return Network.RoundTrip(req)
	}
	if err := a.take(req); err != nil {
		return nil, err
	}
	host := req.URL.Host
	res, err := Network.RoundTrip(req)
	if err != nil {
		a.release(host)
		return res, err
	}
	res.Body = &body{ReadCloser: res.Body, done: func() { a.release(host) }}
	return res, nil
}

type body struct {
	io.ReadCloser
	done  func()
	ended int32
}

func (b *body) end() {
	if atomic.CompareAndSwapInt32(&b.ended, 0, 1) {
		b.done()
	}
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	if err != nil {
		b.end()
	}
	return n, err
}

func (b *body) Close() error {
	err := b.ReadCloser.Close()
	b.end()
	return err
}
