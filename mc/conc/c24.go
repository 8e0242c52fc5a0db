//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vclock"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vsched"
)

// C24: one thread's upstream call gets no answer until nothing else can run. Every other thread, which does not
// need that answer, has to be done by then.

// hangSite is a site with four JWT-protected services, two OIDC clients and something that hangs.
type hangSite struct {
	*site
	k    *lib.Kube
	keys map[string]*prov // of the JwtConfigs
	ths  []hangThread
}

type hangThread struct {
	name string
	*call
	hung bool
	want func(r lib.Res) string
}

const hangOffset = 2 * time.Hour

func newHangSite() *hangSite {
	h := &hangSite{site: newSite(hangOffset), keys: map[string]*prov{}}
	h.k = h.w.Kube
	for _, j := range []string{"j1", "j2"} {
		h.keys[j] = newProv("hang"+j, lib.K("a"))
		h.w.Set(lib.JwtConfig("n", j, h.keys[j].url("jwks")))
		h.w.Set(lib.Policy("n", "p"+j, "s"+j, lib.Path("", "/", "ALL", lib.Pol("jwt", j))))
	}
	h.r.check = h.judge
	return h
}

func (h *hangSite) in(user, client string, lives ...time.Duration) {
	h.user(user, client, lives...)
	h.login(user)
}

func (h *hangSite) add(name string, hung bool, r lib.Req, want func(r lib.Res) string) {
	t := hangThread{name, newCall(r), hung, want}
	h.ths = append(h.ths, t)
	h.r.thread(name, func() { t.do(h.w.Adapter) })
}

// event is an object change by a controller.
func (h *hangSite) event(name string, hung bool, f func()) {
	h.ths = append(h.ths, hangThread{name, nil, hung, nil})
	h.r.thread(name, f)
}

func (h *hangSite) judge() (string, string) {
	var outs []string
	bad := ""
	for i, t := range h.ths {
		out := ""
		if t.call != nil {
			r := t.classify()
			out = r.Kind
			if b := t.want(r); b != "" && bad == "" {
				bad = t.name + ": " + b
			}
		}
		if s := vsched.Stalled(i); s != "" && !t.hung {
			bad = fmt.Sprintf("%s waits (at %s) for the answer to another request's upstream call", t.name, s)
		}
		outs = append(outs, t.name+" "+out)
	}
	return bad, strings.Join(outs, ", ")
}

func notOK(r lib.Res) string {
	if r.Kind == lib.KOK || r.Kind == lib.KPanic {
		return "its upstream call timed out, and it was answered " + r.String()
	}
	return ""
}

func must(kind string) func(r lib.Res) string {
	return func(r lib.Res) string {
		if r.Kind != kind {
			return "expected " + kind + ", got " + r.String()
		}
		return ""
	}
}

func (h *hangSite) bearer(user string, i int) func(r lib.Res) string {
	return func(r lib.Res) string {
		if r.Kind != lib.KOK || r.OutAuth != h.users[user][i].Bearer() {
			return fmt.Sprintf("expected to pass with token set %d of %s, got %v", i, user, r)
		}
		return ""
	}
}

func (h *hangSite) jwt(j, token string) lib.Req {
	r := lib.Req{NS: "n", Svc: "s" + j, Path: "/page", Method: "GET"}
	if token != "" {
		r.Auth = "Bearer " + token
	}
	return r
}

func loggedOut(r lib.Res) string {
	if r.Kind != lib.KRedirect || !lib.Expired(r.SetCookie) {
		return "expected the logout answer, got " + r.String()
	}
	return ""
}

func toLogin(r lib.Res) string {
	if _, err := lib.ParseAuth(r.Location); r.Kind != lib.KRedirect || err != nil {
		return "expected a redirect to the login, got " + r.String()
	}
	return ""
}

func loggedIn(r lib.Res) string {
	if n, c := r.Cookie(); r.Kind != lib.KRedirect || n == "" || lib.Expired(r.SetCookie) || c == "" {
		return "expected the end of the login, got " + r.String()
	}
	return ""
}

type hangOp struct {
	name  string
	setup func(h *hangSite) // adds the thread
}

var day24 = 24 * time.Hour

// hanging operations; their setup also lets the upstream hang.
func hangers() []hangOp {
	return []hangOp{
		{"a refresh", func(h *hangSite) {
			h.in("u", "c1", time.Hour, day24)
			h.p.hangs = func(ep string, r *lib.Rec) bool {
				return ep == "token" && r.Form.Get("refresh_token") == "refresh-u-0"
			}
			h.add("refresh of u", true, h.request("u"), notOK)
		}},
		{"a code exchange", func(h *hangSite) {
			h.user("u", "c1", day24)
			vclock.Set(hangOffset)
			r := h.callback("u")
			h.p.hangs = func(ep string, r *lib.Rec) bool { return ep == "token" && r.Form.Get("code") == "code-u" }
			h.add("callback of u", true, r, notOK)
		}},
		{"a userinfo request", func(h *hangSite) {
			h.user("u", "c1", day24)
			g := h.p.grants["code-u"]
			g.tokens.Access = "opaque-token-of-u"
			g.body = lib.JSON(g.tokens.Body())
			h.p.grants["code-u"] = g
			h.users["u"][0] = g.tokens
			h.login("u")
			h.p.hangs = func(ep string, r *lib.Rec) bool { return ep == "userinfo" }
			h.add("request of u", true, h.request("u"), notOK)
		}},
		{"a key lookup", func(h *hangSite) {
			h.keys["j1"].hangs = func(ep string, r *lib.Rec) bool { return ep == "jwks" }
			h.add("request with an unknown key", true, h.jwt("j1", lib.JWT("b", lib.Std("x", "y"))), notOK)
		}},
		{"a key lookup of a login", func(h *hangSite) {
			h.user("u", "c1", day24)
			g := h.p.grants["code-u"]
			g.tokens.ID = lib.JWT("b", lib.Std("u", "c1"))
			g.body = lib.JSON(g.tokens.Body())
			h.p.grants["code-u"] = g
			vclock.Set(hangOffset)
			r := h.callback("u")
			h.p.hangs = func(ep string, r *lib.Rec) bool { return ep == "jwks" }
			h.add("callback of u", true, r, notOK)
		}},
		{"discovery of a client", func(h *hangSite) {
			p := newProv("hang3", lib.K("a"))
			p.plan["disc"] = []lib.Answer{{Err: lib.ErrNet}, {Err: lib.ErrNet}, {Err: lib.ErrNet}}
			h.w.Set(lib.OidcConfig("n", "o3", "c3", p.url("disc")))
			h.w.Set(lib.Policy("n", "p3", "s3", lib.Path("", "/", "ALL", lib.Pol("oidc", "o3"))))
			p.hangs = func(ep string, r *lib.Rec) bool { return true }
			h.add("visit at a client without discovery", true, lib.Req{NS: "n", Svc: "s3", Path: "/page", Method: "GET"}, notOK)
		}},
		{"creation of a JwtConfig", func(h *hangSite) {
			p := newProv("hang4", lib.K("a"))
			p.hangs = func(ep string, r *lib.Rec) bool { return true }
			h.event("new JwtConfig", true, func() { h.w.Set(lib.JwtConfig("n", "j4", p.url("jwks"))) })
		}},
		{"update of a JwtConfig", func(h *hangSite) {
			h.keys["j1"].hangs = func(ep string, r *lib.Rec) bool { return ep == "jwks" }
			h.event("update of JwtConfig j1", true, func() { h.w.Set(lib.JwtConfig("n", "j1", h.keys["j1"].url("jwks"))) })
		}},
		{"update of an OidcConfig", func(h *hangSite) {
			p := newProv("hang4", lib.K("a"))
			p.hangs = func(ep string, r *lib.Rec) bool { return true }
			h.event("update of OidcConfig oc1", true, func() { h.w.Set(lib.OidcConfig("n", "oc1", "c1", p.url("disc"))) })
		}},
		{"keys of a new OidcConfig", func(h *hangSite) {
			p := newProv("hang4", lib.K("a"))
			p.hangs = func(ep string, r *lib.Rec) bool { return ep == "jwks" }
			h.event("new OidcConfig", true, func() { h.w.Set(lib.OidcConfig("n", "o4", "c4", p.url("disc"))) })
		}},
		{"client secret of an OidcConfig", func(h *hangSite) {
			h.k.Fault = func(verb, key string) error {
				if key == "n/ref" {
					vsched.Stuck("kubernetes")
					return lib.ErrKube
				}
				return nil
			}
			o := lib.OidcConfig("n", "oc2", "c2", h.p.url("disc"))
			o.Spec.ClientSecretRef = v1.ClientSecretRef{Name: "ref", Key: "k"}
			h.event("update of OidcConfig oc2", true, func() { h.w.Set(o) })
		}},
		{"two refreshes", func(h *hangSite) {
			h.in("u", "c1", time.Hour, day24)
			h.in("u2", "c2", time.Hour, day24)
			h.p.hangs = func(ep string, r *lib.Rec) bool {
				return ep == "token" && strings.HasPrefix(r.Form.Get("refresh_token"), "refresh-u")
			}
			h.add("refresh of u", true, h.request("u"), notOK)
			h.add("refresh of u2", true, h.request("u2"), notOK)
		}},
		{"key lookups of two configurations", func(h *hangSite) {
			for _, j := range []string{"j1", "j2"} {
				h.keys[j].hangs = func(ep string, r *lib.Rec) bool { return ep == "jwks" }
				h.add("request with an unknown key at "+j, true, h.jwt(j, lib.JWT("b", lib.Std("x", "y"))), notOK)
			}
		}},
	}
}

// bystanders are operations that do not need any of those answers.
func bystanders() []hangOp {
	tok := lib.JWT("a", lib.Std("x", "y"))
	return []hangOp{
		{"a request of a session", func(h *hangSite) {
			h.in("v", "c1", day24)
			h.add("request of v", false, h.request("v"), h.bearer("v", 0))
		}},
		{"a request at another client", func(h *hangSite) {
			h.in("v2", "c2", day24)
			h.add("request of v2", false, h.request("v2"), h.bearer("v2", 0))
		}},
		{"a logout", func(h *hangSite) {
			h.in("l", "c1", day24)
			h.add("logout of l", false, h.logout("l"), loggedOut)
		}},
		{"its own logout", func(h *hangSite) {
			if h.cookie["u"] != "" {
				h.add("logout of u", false, h.logout("u"), loggedOut)
			}
		}},
		{"a first visit", func(h *hangSite) {
			h.client["n"] = "c1"
			h.add("visit of n", false, h.visit("n"), toLogin)
		}},
		{"a login", func(h *hangSite) {
			h.user("y", "c1", day24)
			vclock.Set(hangOffset)
			h.add("callback of y", false, h.callback("y"), loggedIn)
		}},
		{"a refresh of another session", func(h *hangSite) {
			h.in("z", "c1", time.Hour, day24)
			h.add("refresh of z", false, h.request("z"), h.bearer("z", 1))
		}},
		{"a JWT request", func(h *hangSite) { h.add("request at j1", false, h.jwt("j1", tok), must(lib.KOK)) }},
		{"a JWT request elsewhere", func(h *hangSite) { h.add("request at j2", false, h.jwt("j2", tok), must(lib.KOK)) }},
		{"a request without token", func(h *hangSite) { h.add("request at j1 without token", false, h.jwt("j1", ""), must(lib.KDeny)) }},
		{"a request nothing protects", func(h *hangSite) {
			h.add("request at an open service", false, lib.Req{NS: "n", Svc: "open", Path: "/", Method: "GET"}, must(lib.KOK))
		}},
		{"a policy event", func(h *hangSite) {
			h.event("new policy", false, func() {
				h.w.Set(lib.Policy("n", "new", "open2", lib.Path("", "/", "ALL", lib.Pol("jwt", "j1"))))
				h.w.Del(v1.POLICY, "n", "new")
			})
		}},
	}
}

func c24register() {
	add := func(name string, quick, deep int, ops ...hangOp) {
		reg("C24", scenario{name: name, quick: quick, deep: deep, offset: hangOffset, setup: func() *run {
			h := newHangSite()
			// sessions first: the upstream works until then
			for i := len(ops) - 1; i >= 0; i-- {
				vclock.Set(0)
				if ops[i].name != "its own logout" {
					ops[i].setup(h)
				}
			}
			for _, o := range ops {
				if o.name == "its own logout" {
					o.setup(h)
				}
			}
			vclock.Set(0)
			return h.r
		}})
	}
	for _, g := range hangers() {
		for _, b := range bystanders() {
			if b.name == "its own logout" && g.name != "a refresh" && g.name != "a userinfo request" {
				continue
			}
			q, d := 2, 3
			if g.name == "two refreshes" || g.name == "key lookups of two configurations" {
				q, d = 1, 2
			}
			add(g.name+" hangs beside "+b.name, q, d, g, b)
		}
	}
	bs := bystanders()
	for _, g := range hangers() {
		for _, c := range [][2]int{{0, 2}, {4, 6}, {5, 7}, {1, 11}} {
			add(g.name+" hangs beside "+bs[c[0]].name+" and "+bs[c[1]].name, 1, 2, g, bs[c[0]], bs[c[1]])
		}
	}
}
