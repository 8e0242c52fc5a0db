//go:build go1.21

package lib

import (
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vclock"
)

var labSeq int64

// Grant is an issued authorization code or refresh token.
type Grant struct {
	User, Client, Redirect string
	Used                   bool
}

// TokenSet is one token endpoint answer.
type TokenSet struct{ Access, ID, Refresh string }

// Lab is an identity provider with users, codes and refresh tokens, and an adapter using it.
type Lab struct {
	*IdP
	W       *World
	Offset  time.Duration
	gmu     sync.Mutex
	smu     sync.Mutex
	Codes   map[string]*Grant
	Refresh map[string]*Grant
	Secrets map[string]string // client id -> secret
	// Shape may alter a token set about to be returned (kind "code" or "refresh")
	Shape func(kind string, g *Grant, t TokenSet) map[string]interface{}
	// Rotate: refresh tokens are single use
	Rotate bool
	// NoRefresh: no refresh tokens are issued
	NoRefresh bool
	Life      time.Duration
	Minted    []TokenSet
	Served    int
	n         int
}

// NewLab creates a provider "pN" publishing key "a".
func NewLab() *Lab {
	l := &Lab{Codes: map[string]*Grant{}, Refresh: map[string]*Grant{}, Secrets: map[string]string{}, Life: time.Hour, Rotate: true}
	l.IdP = NewIdP(fmt.Sprintf("p%d", atomic.AddInt64(&labSeq, 1)), K("a"))
	l.IdP.Token = l.token
	if l.guard != nil {
		l.guard.mu.Lock()
		l.guard.labs[l.IdP] = l
		l.guard.mu.Unlock()
	}
	l.IdP.UserInfo = func(r *Rec) Answer { return OK(`{"sub":"x"}`) }
	return l
}

// Clock positions the calling goroutine at the lab's time.
func (l *Lab) Clock() { vclock.Set(l.Offset) }

// Do sends a request at the lab's time.
func (l *Lab) Do(r Req) Res {
	vclock.Set(l.Offset)
	defer vclock.Set(0)
	return l.W.Do(r)
}

// DoAt sends a request to another adapter at the lab's time.
func (l *Lab) DoAt(w *World, r Req) Res {
	vclock.Set(l.Offset)
	defer vclock.Set(0)
	return w.Do(r)
}

// Set delivers an add/update event at the lab's time.
func (l *Lab) Set(o interface{}) { l.W.Set(o) }

// Code issues an authorization code.
func (l *Lab) Code(user, client, redirect string) string {
	l.gmu.Lock()
	defer l.gmu.Unlock()
	l.n++
	c := fmt.Sprintf("code-%s-%d-qz", l.ID, l.n)
	l.guard.Keep(SCode, c, client)
	l.Codes[c] = &Grant{User: user, Client: client, Redirect: redirect}
	return c
}

// Mint creates a token set for a user of a client at the lab's current time.
func (l *Lab) Mint(user, client string) TokenSet {
	l.n++
	exp := startTime.Add(l.Offset + l.Life).Unix()
	base := Claims{"iss": "iss", "sub": user, "aud": client, "exp": exp, "jti": l.n}
	t := TokenSet{Access: JWT("a", base.With("typ", "access")), ID: JWT("a", base.With("typ", "id"))}
	if !l.NoRefresh {
		t.Refresh = fmt.Sprintf("refresh-%s-%d-%sqz", l.ID, l.n, strings.Repeat("x", l.n*5%3)) // tokens get longer and shorter
		l.Refresh[t.Refresh] = &Grant{User: user, Client: client}
	}
	l.Minted = append(l.Minted, t)
	l.keep(t, client)
	return t
}

func (l *Lab) keep(t TokenSet, client string) {
	l.guard.Keep(SAccess, t.Access, client)
	l.guard.Keep(SID, t.ID, client)
	l.guard.Keep(SRefresh, t.Refresh, client)
}

// Knows tells whether a client is registered at the provider.
func (l *Lab) Knows(client string) bool {
	l.smu.Lock()
	defer l.smu.Unlock()
	_, ok := l.Secrets[client]
	return ok || len(l.Secrets) == 0
}

// SetSecret registers a client, or removes it if the secret is empty.
func (l *Lab) SetSecret(client, secret string) {
	l.smu.Lock()
	defer l.smu.Unlock()
	if secret == "" {
		delete(l.Secrets, client)
	} else {
		l.Secrets[client] = secret
	}
}

// Guard returns the guard of the case the lab belongs to, if any.
func (l *Lab) Guard() *Guard { return l.guard }

// Last returns the most recently minted token set.
func (l *Lab) Last() TokenSet {
	l.gmu.Lock()
	defer l.gmu.Unlock()
	if len(l.Minted) == 0 {
		return TokenSet{}
	}
	return l.Minted[len(l.Minted)-1]
}

func oauthErr(code string) Answer {
	return Answer{Status: 400, Body: fmt.Sprintf(`{"error":%q,"error_description":"injected"}`, code)}
}

// ClientOf returns the authenticated client of a token request.
func (l *Lab) ClientOf(r *Rec) (id string, ok bool) {
	id, secret := r.Form.Get("client_id"), r.Form.Get("client_secret")
	if a := r.Header.Get("Authorization"); a != "" {
		id, secret, _ = ParseBasic(a)
	}
	s, known := l.Secrets[id]
	return id, known && s == secret
}

func (l *Lab) token(r *Rec) Answer {
	l.gmu.Lock()
	defer l.gmu.Unlock()
	client, ok := l.ClientOf(r)
	if r.Method != "POST" || !ok {
		return Answer{Status: 401, Body: `{"error":"invalid_client"}`}
	}
	var g *Grant
	kind := "code"
	switch r.Form.Get("grant_type") {
	case "authorization_code":
		g = l.Codes[r.Form.Get("code")]
		if g == nil || g.Used || g.Client != client || g.Redirect != r.Form.Get("redirect_uri") {
			return oauthErr("invalid_grant")
		}
	case "refresh_token":
		kind = "refresh"
		g = l.Refresh[r.Form.Get("refresh_token")]
		if g == nil || g.Used || g.Client != client {
			return oauthErr("invalid_grant")
		}
	default:
		return oauthErr("unsupported_grant_type")
	}
	if kind == "code" || l.Rotate {
		g.Used = true
	}
	l.Served++
	t := l.Mint(g.User, client)
	var body map[string]interface{}
	if l.Shape != nil {
		body = l.Shape(kind, g, t)
	} else {
		body = t.Body()
	}
	s := func(k string) string { v, _ := body[k].(string); return v }
	l.keep(TokenSet{Access: s("access_token"), ID: s("id_token"), Refresh: s("refresh_token")}, client)
	return OK(JSON(body))
}

// Body renders a token answer.
func (t TokenSet) Body() map[string]interface{} {
	m := map[string]interface{}{"token_type": "Bearer", "expires_in": 3600}
	for k, v := range map[string]string{"access_token": t.Access, "id_token": t.ID, "refresh_token": t.Refresh} {
		if v != "" {
			m[k] = v
		}
	}
	return m
}

// Bearer is the Authorization value a session with these tokens is forwarded with.
func (t TokenSet) Bearer() string { return "Bearer " + t.Access + " " + t.ID }

// ---------------------------------------------------------------- browser

// Browser keeps cookies.
type Browser struct{ Jar map[string]string }

// NewBrowser creates a browser without cookies.
func NewBrowser() *Browser { return &Browser{Jar: map[string]string{}} }

// Cookies renders the Cookie header.
func (b *Browser) Cookies() string {
	var l []string
	for k, v := range b.Jar {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// Apply stores the cookies of an answer.
func (b *Browser) Apply(res Res) {
	for _, s := range []string{res.SetCookie, res.OutCookie} {
		n, v := ParseSetCookie(s)
		if n == "" {
			continue
		}
		if !Everywhere(s) {
			continue // a cookie of its own, which does not reach the pages the tests visit
		}
		if Expired(s) {
			delete(b.Jar, n)
		} else {
			b.Jar[n] = v
		}
	}
}

// Everywhere tells whether a browser sends (or, if expired, drops) the cookie on every path of the host.
func Everywhere(s string) bool {
	resp := http.Response{Header: http.Header{"Set-Cookie": {s}}}
	for _, c := range resp.Cookies() {
		d := strings.TrimPrefix(strings.ToLower(c.Domain), ".")
		return c.Path == "/" && (d == "" || d == "app.test") && !c.Partitioned
	}
	return false
}

// Auth is a parsed authorization redirect.
type Auth struct {
	Endpoint, ClientID, ResponseType, Scope, Redirect, State string
	Extra                                                    []string
}

// ParseAuth parses the Location of a login redirect.
func ParseAuth(loc string) (Auth, error) {
	u, err := url.Parse(loc)
	if err != nil {
		return Auth{}, err
	}
	q := u.Query()
	a := Auth{Endpoint: u.Scheme + "://" + u.Host + u.Path, ClientID: q.Get("client_id"), ResponseType: q.Get("response_type"), Scope: q.Get("scope"), Redirect: q.Get("redirect_uri"), State: q.Get("state")}
	for k, v := range q {
		switch k {
		case "client_id", "response_type", "scope", "redirect_uri", "state":
			if len(v) != 1 {
				a.Extra = append(a.Extra, k)
			}
		}
	}
	return a, nil
}
