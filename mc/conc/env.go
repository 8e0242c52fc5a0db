//go:build go1.21

package main

import (
	"context"
	"encoding/base64"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vsched"
)

// Threads run one at a time, so the environment needs no locks; it has none, because they would order the
// threads' memory accesses in the eyes of the race detector. Its mutable state is touched in norace code only.

const maxReq = 256

// prov is an identity provider. Everything but the arrays below is fixed before the threads start.
type prov struct {
	id   string
	disc string
	jwks []string // versions of the published key set
	// plan holds the answers to the first requests of an endpoint, afterwards it works
	plan map[string][]lib.Answer
	// codes and refresh tokens, and what they are exchanged for
	grants map[string]grant
	info   lib.Answer
	// hangs selects requests that are not answered before they time out
	hangs func(ep string, r *lib.Rec) bool

	vers   int
	used   [64]bool
	count  [8]int
	log    [maxReq]request
	logged int
}

type grant struct {
	n       int // index into used
	kind    string
	client  string
	body    string
	single  bool
	tokens  lib.TokenSet
	uri     string
	refused bool
}

type request struct {
	at    int
	ep    string
	grant string
	ok    bool
}

var eps = []string{"disc", "jwks", "token", "userinfo"}

func newProv(id string, keys ...lib.PubKey) *prov {
	p := &prov{id: id, plan: map[string][]lib.Answer{}, grants: map[string]grant{}, info: lib.OK(`{"sub":"x"}`)}
	b := lib.Base(id)
	p.disc = lib.JSON(map[string]string{"issuer": b, "authorization_endpoint": b + "/auth", "token_endpoint": b + "/token", "jwks_uri": b + "/jwks", "userinfo_endpoint": b + "/userinfo"})
	p.jwks = []string{lib.JWKS(keys)}
	lib.Register(id, p)
	return p
}

func (p *prov) url(ep string) string { return lib.Base(p.id) + "/" + ep }

//go:norace
func (p *prov) note(ep, g string, ok bool) {
	if p.logged < maxReq {
		p.log[p.logged] = request{at: vsched.Steps(), ep: ep, grant: g, ok: ok}
		p.logged++
	}
}

//go:norace
func (p *prov) next(e int) int { p.count[e]++; return p.count[e] - 1 }

//go:norace
func (p *prov) publish(v int) { p.vers = v }

//go:norace
func (p *prov) version() int { return p.vers }

//go:norace
func (p *prov) take(g grant) bool {
	if p.used[g.n] && g.single {
		return false
	}
	p.used[g.n] = true
	return true
}

// Serve implements lib.Site.
func (p *prov) Serve(r *lib.Rec, rest string) lib.Answer {
	e := -1
	for i, n := range eps {
		if strings.HasPrefix(rest, n) {
			e = i
		}
	}
	if e < 0 {
		return lib.Answer{Status: 404, Body: "{}"}
	}
	if p.hangs != nil && p.hangs(eps[e], r) {
		vsched.Stuck("upstream " + eps[e])
		p.note(eps[e], "", false)
		return lib.Answer{Err: lib.ErrTimeout}
	}
	k := p.next(e)
	if l := p.plan[eps[e]]; k < len(l) && (l[k].Err != nil || l[k].Status != 0) {
		p.note(eps[e], "", false)
		return l[k]
	}
	switch eps[e] {
	case "disc":
		p.note("disc", "", true)
		return lib.OK(p.disc)
	case "jwks":
		p.note("jwks", "", true)
		return lib.OK(p.jwks[p.version()])
	case "userinfo":
		p.note("userinfo", "", true)
		return p.info
	}
	name := r.Form.Get("code")
	if r.Form.Get("grant_type") == "refresh_token" {
		name = r.Form.Get("refresh_token")
	}
	g, ok := p.grants[name]
	client := r.Form.Get("client_id")
	if a := r.Header.Get("Authorization"); strings.HasPrefix(a, "Basic ") {
		b, _ := base64.StdEncoding.DecodeString(a[6:])
		client = strings.SplitN(string(b), ":", 2)[0]
	}
	if !ok || g.refused || g.client != client || g.kind != r.Form.Get("grant_type") || !p.take(g) {
		p.note("token", name, false)
		return lib.Answer{Status: 400, Body: `{"error":"invalid_grant","error_description":"injected"}`}
	}
	p.note("token", name, true)
	return lib.OK(g.body)
}

// user issues a code and, if rounds > 0, refresh tokens for a user; round i's tokens live lives[i].
func (p *prov) user(name, client string, lives ...time.Duration) []lib.TokenSet {
	var l []lib.TokenSet
	for i, life := range lives {
		c := lib.Claims{"iss": "iss", "sub": name, "aud": client, "exp": lib.In(life), "jti": fmt.Sprint(name, i)}
		t := lib.TokenSet{Access: lib.JWT("a", c.With("typ", "access")), ID: lib.JWT("a", c.With("typ", "id"))}
		if i < len(lives)-1 {
			t.Refresh = fmt.Sprintf("refresh-%s-%d", name, i)
		}
		l = append(l, t)
		g := grant{n: len(p.grants), kind: "authorization_code", client: client, body: lib.JSON(t.Body()), single: true, tokens: t}
		k := "code-" + name
		if i > 0 {
			g.kind, k = "refresh_token", l[i-1].Refresh
		}
		p.grants[k] = g
	}
	return l
}

// ---------------------------------------------------------------- calls

// call is one request of a thread; it is classified after the threads have ended.
type call struct {
	r          lib.Req
	msg        *authnz.HandleAuthnZRequest
	out        *authnz.HandleAuthnZResponse
	err        error
	start, end int // logical times; end 0: did not return
	started    bool
	res        lib.Res
}

func newCall(r lib.Req) *call { return &call{r: r, msg: r.Msg()} }

func (k *call) do(a *adapter.AppidAdapter) {
	k.begin()
	k.out, k.err = a.HandleAuthnZ(context.Background(), k.msg)
	k.finish()
}

//go:norace
func (k *call) begin() { k.start, k.started = vsched.Steps(), true }

//go:norace
func (k *call) finish() { k.end = vsched.Steps() + 1 }

func (k *call) classify() lib.Res {
	if k.end == 0 {
		k.res = lib.Res{Kind: lib.KPanic, Err: "no answer"}
	} else {
		k.res = lib.Classify(k.out, k.err)
	}
	return k.res
}

// mark is a logical interval of another operation.
type mark struct {
	name       string
	start, end int
	started    bool
}

//go:norace
func (m *mark) begin() { m.start, m.started = vsched.Steps(), true }

//go:norace
func (m *mark) finish() { m.end = vsched.Steps() + 1 }

func (m *mark) do(f func()) { m.begin(); f(); m.finish() }

func cookieOf(setCookie string) (string, string) { return lib.ParseSetCookie(setCookie) }

var _ = http.StatusOK
