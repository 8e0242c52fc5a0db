//go:build go1.21

package main

import (
	"fmt"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// Products of request, cookie, provider and configuration variants around one login (C09-C12).

// stage is one provider with two clients and an adapter, used by one product case.
type stage struct {
	*lib.Lab
	b *lib.Browser
}

type stageCfg struct {
	clientID    string
	scopes      []string
	redirectURI string
	authQuery   string
	rules       []v1.Rule
}

func newStage(cfg stageCfg) *stage {
	polInit()
	l := lib.NewLab()
	if cfg.clientID == "" {
		cfg.clientID = "cid"
	}
	if cfg.authQuery != "" {
		l.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if ep != "disc" {
				return nil
			}
			d := l.DiscoveryDoc()
			d["authorization_endpoint"] += cfg.authQuery
			a := lib.OK(lib.JSON(d))
			return &a
		}
	}
	l.W = lib.NewWorld(polKube, nil)
	for _, id := range []string{cfg.clientID, "other"} {
		l.Secrets[id] = "secret-" + id
		o := lib.OidcConfig("ns", "o-"+id, id, l.URL("disc"))
		o.Spec.Scopes = cfg.scopes
		o.ObjectMeta.Name = map[bool]string{true: "o", false: "oo"}[id == cfg.clientID]
		l.W.Set(o)
	}
	pp := lib.Pol("oidc", "o", cfg.rules...)
	pp.RedirectUri = cfg.redirectURI
	l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", pp)))
	l.W.Set(lib.Policy("ns", "q", "s2", lib.Path("", "/", "ALL", lib.Pol("oidc", "oo"))))
	return &stage{l, lib.NewBrowser()}
}

// login performs a complete login of a user and returns the session cookie.
func (s *stage) login(svc, user, client string) (name, value string, bad string) {
	b := lib.NewBrowser()
	r := lib.Req{NS: "ns", Svc: svc, Method: "GET", Path: "/p"}
	res := s.Do(r)
	a, err := lib.ParseAuth(res.Location)
	if res.Kind != lib.KRedirect || err != nil {
		return "", "", fmt.Sprintf("login of %s not started: %v", user, res)
	}
	b.Apply(res)
	r.Path, r.Cookies, r.Code, r.State = "/p/oidc/callback", b.Cookies(), s.Code(user, client, a.Redirect), a.State
	res = s.Do(r)
	name, value = res.Cookie()
	if res.Kind != lib.KRedirect || value == "" {
		return "", "", fmt.Sprintf("login of %s not completed: %v", user, res)
	}
	return name, value, ""
}

// product evaluates f on every combination of the dimensions and reports violations.
func product(c *lib.Check, name string, dims []int, f func(i []int) (bad string, show interface{}, outcome string)) {
	n := 1
	for _, d := range dims {
		n *= d
	}
	if c.Prop == "C25" { // what leaves the adapter decides, not what the case expects
		inner := f
		f = func(i []int) (bad string, show interface{}, outcome string) {
			g := lib.NewGuard()
			lib.Under(g, func() { bad, show, outcome = inner(i) })
			if bad != "" {
				outcome = "other"
			}
			bad = g.Leak()
			if outcome == "skip" && g.Checked > 0 {
				outcome = "partly"
			}
			c.Count("texts_examined", g.Checked)
			return
		}
	}
	var mu sync.Mutex
	lib.Parallel(n, runtime.NumCPU(), func(k int) {
		if c.Stop() {
			return
		}
		idx := make([]int, len(dims))
		for j, v := 0, k; j < len(dims); j++ {
			idx[j], v = v%dims[j], v/dims[j]
		}
		eval := func() (bad string, show interface{}, outcome string) {
			on := true
			defer caught(&bad, &on)
			return f(idx)
		}
		done := c.Watch(func() (string, interface{}) { return name + ": the adapter hangs", idx })
		bad, show, outcome := eval()
		done()
		if outcome == "skip" && bad == "" {
			return
		}
		c.Count("evaluations", 1)
		if c.Level == "model_checking" { // one request after the login that prepared the state
			mu.Lock()
			c.Count("states", 1)
			c.Count("transitions", 1)
			mu.Unlock()
		}
		if outcome != "" {
			c.Outcome(name + ": " + outcome)
		}
		if bad != "" {
			c.Violation(name, fmt.Sprintf("%s %v: %s", name, show, bad), map[string]interface{}{"space": name, "case": show, "index": idx, "what": bad},
				func() bool { b, _, _ := eval(); return b != "" })
		} else if c.WantSample() && k%97 == 13 {
			c.Sample(map[string]interface{}{"space": name, "case": show, "outcome": outcome})
		}
	})
}

// ---------------------------------------------------------------- C10

type tokOutcome struct {
	name  string
	ok    int // 1 completes, 0 must not, 2 open
	fault *lib.Answer
	shape func(t lib.TokenSet) map[string]interface{}
	user  int // userinfo status
}

func tokOutcomes() []tokOutcome {
	std := func(kv ...interface{}) lib.Claims {
		c := lib.Std("u", "cid")
		for i := 0; i+1 < len(kv); i += 2 {
			c = c.With(kv[i].(string), kv[i+1])
		}
		return c
	}
	foreign := func(c lib.Claims) string {
		return lib.Sign(`{"alg":"RS256","kid":"a"}`, lib.JSON(c), "RS256", lib.Key("b"))
	}
	with := func(kv ...interface{}) func(lib.TokenSet) map[string]interface{} {
		return func(t lib.TokenSet) map[string]interface{} {
			b := t.Body()
			for i := 0; i+1 < len(kv); i += 2 {
				if kv[i+1] == nil {
					delete(b, kv[i].(string))
				} else {
					b[kv[i].(string)] = kv[i+1]
				}
			}
			return b
		}
	}
	set := func(a, i string) func(lib.TokenSet) map[string]interface{} {
		return func(t lib.TokenSet) map[string]interface{} {
			if a != "keep" {
				t.Access = a
			}
			if i != "keep" {
				t.ID = i
			}
			return t.Body()
		}
	}
	return []tokOutcome{
		{name: "valid tokens", ok: 1},
		{name: "access token for another client", shape: set(lib.JWT("a", std("aud", "other")), "keep")},
		{name: "ID token for another client", ok: 2, shape: set("keep", lib.JWT("a", std("aud", "other")))}, // the default rule names the access token only
		{name: "ID token signed by another key", shape: set("keep", foreign(std()))},
		{name: "access token signed by another key, userinfo refuses", user: 401, shape: set(foreign(std()), "keep")},
		{name: "unsigned ID token", shape: set("keep", lib.Sign(`{"alg":"none","kid":"a"}`, lib.JSON(std()), "none", nil))},
		{name: "ID token with unknown kid", shape: set("keep", lib.Sign(`{"alg":"RS256","kid":"zz"}`, lib.JSON(std()), "RS256", lib.Key("a")))},
		{name: "expired ID token", shape: set("keep", lib.JWT("a", std("exp", lib.In(-time.Hour))))},
		{name: "expired access token", shape: set(lib.JWT("a", std("exp", lib.In(-time.Hour))), "keep")},
		{name: "ID token not yet valid", shape: set("keep", lib.JWT("a", std("nbf", lib.In(time.Hour*9))))},
		{name: "no ID token", shape: set("keep", "")},
		{name: "opaque ID token", shape: set("keep", "opaque-id-token")},
		{name: "no access token", shape: set("", "keep")},
		{name: "opaque access token, userinfo accepts", ok: 2, user: 200, shape: set("opaque-token", "keep")},
		{name: "opaque access token, userinfo refuses", user: 401, shape: set("opaque-token", "keep")},
		{name: "opaque access token, userinfo fails", user: 500, shape: set("opaque-token", "keep")},
		{name: "error 400", fault: &lib.Answer{Status: 400, Body: `{"error":"invalid_grant","error_description":"x"}`}},
		{name: "error 401 without body", fault: &lib.Answer{Status: 401}},
		{name: "error 500", fault: &lib.Answer{Status: 500, Body: "oops"}},
		{name: "204", fault: &lib.Answer{Status: 204}},
		{name: "201 with tokens", ok: 2, fault: &lib.Answer{Status: 201, Body: "TOKENS"}},
		{name: "unreachable", fault: &lib.Answer{Err: lib.ErrNet}},
		{name: "timeout", fault: &lib.Answer{Err: lib.ErrTimeout}},
		{name: "not JSON", fault: &lib.Answer{Status: 200, Body: "<html>"}},
		{name: "JSON null", fault: &lib.Answer{Status: 200, Body: "null"}},
		{name: "wrong types", fault: &lib.Answer{Status: 200, Body: `{"access_token":1,"id_token":{}}`}},
		{name: "truncated", fault: &lib.Answer{Status: 200, Body: `{"access_token":"a","id_to`, Trunc: true}},
		// valid tokens in answers whose other members vary (RFC 6749 5.1: expires_in is optional, unknown members are ignored)
		{name: "without expires_in", ok: 1, shape: with("expires_in", nil)},
		{name: "expires_in 0", ok: 1, shape: with("expires_in", 0)},
		{name: "expires_in negative", ok: 1, shape: with("expires_in", -1)},
		{name: "expires_in large", ok: 1, shape: with("expires_in", 1<<31)},
		{name: "expires_in a string", ok: 2, shape: with("expires_in", "3600")},
		{name: "without token_type", ok: 1, shape: with("token_type", nil)},
		{name: "token_type bearer", ok: 1, shape: with("token_type", "bearer")},
		{name: "scope and unknown members", ok: 1, shape: with("scope", "openid x", "not_before_policy", 0, "session_state", "s", "x", lib.Claims{"access_token": "y"})},
		{name: "error member null", ok: 1, shape: with("error", nil)},
		{name: "members in other case next to the real ones", ok: 2, shape: with("Access_Token", "x", "ID_TOKEN", "y")},
	}
}

func callbackProduct(c *lib.Check) {
	cookieKinds := []string{"own", "own, 59 minutes old", "own, 61 minutes old", "own, 60 minutes and 2 seconds old", "another login's", "the other client's", "bit flipped early", "bit flipped late", "truncated", "extended",
		"missing", "a session id", "the plain state", "issued with other keys", "empty", "own and a session of another service"}
	stateKinds := []string{"equal", "another login's", "empty", "prefix", "extended", "other case"}
	codes := []string{"good", "used", "for the other client", "for another redirect_uri", "empty", "unknown"}
	errs := []string{"", "access_denied"}
	redirs := []string{"", "https://elsewhere.test/landing?x=1"}
	toks := tokOutcomes()
	foreignKube := lib.NewKube()
	foreignKube.PutCookieKeys(77)
	_, foreignWeb := lib.NewStrategies(foreignKube)
	run := func(name string, toks []tokOutcome, cookieKinds, stateKinds, codes []string) {
		product(c, name, []int{len(cookieKinds), len(stateKinds), len(codes), len(errs), len(toks), len(redirs)}, func(i []int) (string, interface{}, string) {
			ck, sk, cd, er, tk, ru := cookieKinds[i[0]], stateKinds[i[1]], codes[i[2]], errs[i[3]], toks[i[4]], redirs[i[5]]
			show := map[string]string{"cookie": ck, "state": sk, "code": cd, "error": er, "tokens": tk.name, "redirectUri": ru}
			s := newStage(stageCfg{redirectURI: ru})
			defer s.Close()
			s.UserInfo = func(r *lib.Rec) lib.Answer {
				st := tk.user
				if st == 0 {
					st = 401
				}
				return lib.Answer{Status: st, Body: `{"sub":"u"}`}
			}
			r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/shop/cart"}
			start := func(svc string, w *lib.World) (lib.Auth, string, string, string) {
				q := r
				q.Svc = svc
				res := w.Do(q)
				a, err := lib.ParseAuth(res.Location)
				n, v := res.Cookie()
				if res.Kind != lib.KRedirect || err != nil || v == "" {
					return a, "", "", fmt.Sprintf("login not started: %v", res)
				}
				return a, n, v, ""
			}
			a, n, v, bad := start("s", s.W)
			if bad != "" {
				return "", show, "skip" // C09 decides this
			}
			a2, _, v2, _ := start("s", s.W)
			_, n3, v3, _ := start("s2", s.W)
			_, sid, bad := s.login("s2", "victim", "other")
			if bad != "" {
				return "", show, "skip"
			}
			cookie, okCookie := n+"="+v, false
			flip := func(p int) string {
				b := []byte(v)
				if p < 0 {
					p += len(b)
				}
				if b[p] == 'A' {
					b[p] = 'B'
				} else {
					b[p] = 'A'
				}
				return n + "=" + string(b)
			}
			switch ck {
			case "own":
				okCookie = true
			case "own, 59 minutes old":
				okCookie = true
				s.Offset = 59 * time.Minute
			case "own, 61 minutes old":
				s.Offset = 61 * time.Minute
			case "own, 60 minutes and 2 seconds old":
				s.Offset = 60*time.Minute + 2*time.Second
			case "another login's":
				cookie = n + "=" + v2
			case "the other client's":
				cookie = n + "=" + v3
			case "bit flipped early":
				cookie = flip(12)
			case "bit flipped late":
				cookie = flip(-8)
			case "truncated":
				cookie = n + "=" + v[:len(v)-4]
			case "extended":
				cookie = n + "=" + v + "AAAA"
			case "missing":
				cookie = ""
			case "a session id":
				cookie = n + "=" + sid
			case "the plain state":
				cookie = n + "=" + a.State
			case "issued with other keys":
				w2 := lib.NewWorld(foreignKube, foreignWeb)
				o := lib.OidcConfig("ns", "o", "cid", s.URL("disc"))
				w2.Set(o)
				w2.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o"))))
				fa, fn, fv, bad := start("s", w2)
				if bad != "" {
					return "", show, "skip"
				}
				a = fa
				cookie = fn + "=" + fv
			case "empty":
				cookie = n + "="
			case "own and a session of another service":
				okCookie = true
				cookie = n3 + "=" + sid + "; " + cookie
			}
			state, okState := a.State, sk == "equal"
			switch sk {
			case "another login's":
				state = a2.State
			case "empty":
				state = ""
			case "prefix":
				state = state[:len(state)-1]
			case "extended":
				state += "x"
			case "other case":
				state = strings.ToUpper(state)
				if state == a.State {
					state = strings.ToLower(state)
				}
			}
			if ck == "another login's" && sk == "another login's" {
				okCookie, okState = true, true // that is simply the other login
			}
			code, okCode := s.Code("u", "cid", a.Redirect), cd == "good"
			switch cd {
			case "used":
				s.Codes[code].Used = true
			case "for the other client":
				s.Codes[code].Client = "other"
			case "for another redirect_uri":
				s.Codes[code].Redirect = "https://evil.test/oidc/callback"
			case "empty":
				code = ""
			case "unknown":
				code = "made-up"
			}
			if tk.shape != nil {
				s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} { return tk.shape(t) }
			}
			s.Fault = func(ep string, rec *lib.Rec) *lib.Answer {
				if ep == "token" && tk.fault != nil {
					f := *tk.fault
					if f.Body == "TOKENS" {
						f.Body = lib.JSON(s.Mint("u", "cid").Body())
					}
					return &f
				}
				return nil
			}
			s.ResetLog()
			q := r
			q.Path, q.Cookies, q.State, q.Code, q.Error = "/shop/cart/oidc/callback", cookie, state, code, er
			res := s.Do(q)
			if res.Kind == lib.KPanic {
				return "panic: " + res.Err, show, ""
			}
			if res.Kind == lib.KOK || len(res.OutAuth)+len(res.OutCookie) > 0 {
				return fmt.Sprintf("the callback was let through: %v", res), show, ""
			}
			prereq := okCookie && okState && cd != "empty" && er == ""
			if !prereq && len(s.Requests("token")) > 0 {
				return fmt.Sprintf("the code was redeemed although state, cookie or error forbid it: %v", res), show, ""
			}
			if prereq {
				for _, t := range s.Requests("token") {
					if t.Form.Get("redirect_uri") != a.Redirect || t.Form.Get("code") != code {
						return fmt.Sprintf("code redeemed with %s, expected the redirect_uri %s", t.Form.Encode(), a.Redirect), show, ""
					}
				}
			}
			want := 0
			if prereq && okCode {
				want = tk.ok
			}
			want0 := "https://app.test/shop/cart"
			if ru != "" {
				want0 = ru
			}
			_, nv := res.Cookie()
			done := res.Kind == lib.KRedirect && !strings.HasPrefix(res.Location, s.URL("auth"))
			s.Shape, s.Fault = nil, nil
			passes := func() (lib.Res, bool) {
				q := r
				q.Cookies = n + "=" + nv
				x := s.Do(q)
				return x, x.Kind == lib.KOK
			}
			switch {
			case want == 1 && (!done || res.Location != want0 || nv == ""):
				return fmt.Sprintf("a correct login was answered %v, expected a redirect to %s with a session", res, want0), show, ""
			case want == 0 && done:
				return fmt.Sprintf("the login completed: %v", res), show, ""
			}
			if nv != "" {
				x, p := passes()
				if p && want == 0 {
					return fmt.Sprintf("a failed callback left a session behind: %v", x), show, ""
				}
				if !p && want == 1 {
					return fmt.Sprintf("the session of a correct login does not pass: %v", x), show, ""
				}
			}
			return "", show, fmt.Sprintf("want %d: %s %s", want, res.Kind, short(res.Msg))
		})
	}
	// everything about state and code with a valid and two failing token answers, and every token answer with the state variants that matter
	run("callback inputs", append(append([]tokOutcome{}, toks[0]), toks[3], toks[16]), cookieKinds, stateKinds, codes)
	run("token answers", toks, []string{"own", "another login's", "missing", "own, 59 minutes old"}, []string{"equal", "empty", "another login's"}, []string{"good", "used"})
	if c.Thorough() {
		run("callback inputs and token answers", toks, cookieKinds, stateKinds, codes)
	}
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

// landingProduct: where a completed login leads, for every form of URL and of configured redirect.
func landingProduct(c *lib.Check) {
	schemes := []string{"https", "http"}
	redirs := []string{"", "https://elsewhere.test/landing?x=1", "/home", "home?x=1#f", "//cdn.test/x", "https://app.test/oidc/callback/landing", "app://open", "?x", "https://elsewhere.test:444/\u00fc%20x"}
	paths := append([]string{"/oidc/x", "/a/oidc/b/c", "/oidc/callback/x", "/a/oidc/callback/b", "/oidc/logout/x", "/a/oidc/logout2", "/callback/a"}, urlPaths...)
	product(c, "landing pages", []int{len(schemes), len(urlHosts), len(paths), len(redirs)}, func(i []int) (string, interface{}, string) {
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Scheme: schemes[i[0]], Host: urlHosts[i[1]], Path: paths[i[2]]}
		show := map[string]string{"scheme": r.Scheme, "host": r.Host, "path": r.Path, "redirectUri": redirs[i[3]]}
		if !c.Thorough() && i[0]+i[1] > 0 && i[2] > 1 && i[3] > 1 {
			return "", nil, "skip"
		}
		s := newStage(stageCfg{redirectURI: redirs[i[3]]})
		defer s.Close()
		res := s.Do(r)
		a, err := lib.ParseAuth(res.Location)
		if res.Kind != lib.KRedirect || err != nil {
			return "", show, "skip" // C09 decides this
		}
		n, v := res.Cookie()
		cb := r
		cb.Path = r.Path + "/oidc/callback"
		cb.Cookies, cb.State, cb.Code = n+"="+v, a.State, s.Code("u", "cid", a.Redirect)
		res = s.Do(cb)
		want := redirs[i[3]]
		if want == "" {
			want = r.Scheme + "://" + r.Host + r.Path
		}
		n, v = res.Cookie()
		if res.Kind != lib.KRedirect || res.Location != want || v == "" {
			return fmt.Sprintf("the completed login is answered %v, expected a redirect to %s with a session", res, want), show, ""
		}
		r.Cookies = n + "=" + v
		if res = s.Do(r); res.Kind != lib.KOK || res.OutAuth != s.Last().Bearer() {
			return fmt.Sprintf("the session does not pass: %v", res), show, ""
		}
		return "", show, "completed"
	})
}

// ---------------------------------------------------------------- C09

var (
	urlPaths = []string{"/", "/a", "/a/", "/a b", "/a%20b", "/\u00fc", "/a&b=c", "/a;b", "/a+b", "/a#b", "//a", "/a/../b", "/A", "/a?b=c", "/a/oidc", "/oidc", "/callback", ""}
	urlHosts = []string{"app.test", "app.test:8443", "app.test:443", "app.test:80", "app.test.", "[::1]:80", "APP.test", "a.b-c.test"}
)

func redirectProduct(c *lib.Check) {
	schemes := []string{"https", "http"}
	scopes := [][]string{nil, {}, {"openid"}, {"openid", "email"}, {"b", "a"}, {"x&y=z"}, {"a b"}, {"ü+"}}
	queries := []string{"", "?p=1", "?p=1&q=a%20b", "?", "?client_id=evil&state=evil&redirect_uri=https://evil", "?p=1&p=2"}
	clients := []string{"cid", "1c16920e-a6eb-4ba5-b21a", "12-ab.apps.example.com", "A_b~c"}
	methods := []string{"GET", "POST"}
	if !c.Thorough() {
		methods = methods[:1]
	}
	var mu sync.Mutex
	seen := map[string]bool{}
	product(c, "login redirect", []int{len(schemes), len(urlHosts), len(urlPaths), len(scopes), len(queries), len(clients), len(methods)}, func(i []int) (string, interface{}, string) {
		// pairwise-complete in the quick tier: paths x hosts x schemes with the first configurations, configurations with the first requests
		if !c.Thorough() && (i[0]+i[1] > 0 && i[3]+i[5] > 0 && i[2] > 1 && i[4] > 0) {
			return "", nil, "skip"
		}
		cfg := stageCfg{clientID: clients[i[5]], scopes: scopes[i[3]], authQuery: queries[i[4]]}
		r := lib.Req{NS: "ns", Svc: "s", Method: methods[i[6]], Scheme: schemes[i[0]], Host: urlHosts[i[1]], Path: urlPaths[i[2]]}
		show := map[string]interface{}{"scheme": r.Scheme, "host": r.Host, "path": r.Path, "scopes": cfg.scopes, "endpoint query": cfg.authQuery, "client": cfg.clientID}
		s := newStage(cfg)
		defer s.Close()
		res := s.Do(r)
		if res.Kind != lib.KRedirect {
			return fmt.Sprintf("answered %v, expected a redirect to the identity provider", res), show, ""
		}
		u, err := url.Parse(res.Location)
		if err != nil {
			return "unparsable location " + res.Location, show, ""
		}
		q, err := url.ParseQuery(u.RawQuery)
		if err != nil {
			return "unparsable query in " + res.Location, show, ""
		}
		scope := "openid profile email"
		if len(cfg.scopes) > 0 {
			scope = strings.Join(cfg.scopes, " ")
		}
		if got := u.Scheme + "://" + u.Host + u.Path; got != s.URL("auth") || u.Fragment != "" {
			return "redirect goes to " + res.Location, show, ""
		}
		state := q.Get("state")
		for k, v := range map[string]string{"client_id": cfg.clientID, "response_type": "code", "scope": scope, "redirect_uri": r.Scheme + "://" + r.Host + r.Path + "/oidc/callback", "state": state} {
			if len(q[k]) != 1 || q.Get(k) != v {
				return fmt.Sprintf("parameter %s is %q, expected exactly one %q", k, q[k], v), show, ""
			}
		}
		own, _ := url.ParseQuery(strings.TrimPrefix(cfg.authQuery, "?"))
		for k, v := range own {
			if strings.HasPrefix(k, "p") || k == "q" {
				if strings.Join(q[k], "|") != strings.Join(v, "|") {
					return fmt.Sprintf("the endpoint's own parameter %s=%q became %q", k, v, q[k]), show, ""
				}
			}
		}
		n, v := res.Cookie()
		if bad := stateCookieBad(state, n, v); bad != "" {
			return bad, show, ""
		}
		mu.Lock()
		dup := seen[state] || seen[v]
		seen[state], seen[v] = true, true
		mu.Unlock()
		if dup {
			return "state or state cookie was used before", show, ""
		}
		// the login it starts can be completed
		if s.Codes != nil && i[5] < 2 {
			cb := r
			cb.Path = r.Path + "/oidc/callback"
			cb.Cookies, cb.State, cb.Code = n+"="+v, state, s.Code("u", cfg.clientID, q.Get("redirect_uri"))
			res := s.Do(cb)
			if res.Kind != lib.KRedirect || res.Location != r.Scheme+"://"+r.Host+r.Path {
				return fmt.Sprintf("completing the login is answered %v", res), show, ""
			}
		}
		return "", show, "redirect"
	})
}

func cookieForms(c *lib.Check) {
	type form struct {
		name string
		want int // 1 pass, 0 not, 2 open
		f    func(n, v string) string
	}
	const other = "oidc-cookie-other"
	forms := []form{
		{"alone", 1, func(n, v string) string { return n + "=" + v }},
		{"after another cookie", 1, func(n, v string) string { return "a=b; " + n + "=" + v }},
		{"before another cookie", 1, func(n, v string) string { return n + "=" + v + "; a=b" }},
		{"between cookies", 1, func(n, v string) string { return "x=1; " + n + "=" + v + "; y=2" }},
		{"after a malformed cookie", 1, func(n, v string) string { return "bad cookie; =; " + n + "=" + v }},
		{"without spaces", 1, func(n, v string) string { return "x=1;" + n + "=" + v + ";y=2" }},
		{"after a cookie with a similar name", 1, func(n, v string) string { return n + "x=zzz; " + n + "=" + v }},
		{"quoted", 2, func(n, v string) string { return n + `="` + v + `"` }},
		{"twice", 1, func(n, v string) string { return n + "=" + v + "; " + n + "=" + v }},
		{"second of two", 2, func(n, v string) string { return n + "=zzz; " + n + "=" + v }},
		{"other name", 0, func(n, v string) string { return other + "=" + v }},
		{"similar name", 0, func(n, v string) string { return n + "x=" + v }},
		{"name prefix", 0, func(n, v string) string { return strings.TrimSuffix(n, "d") + "=" + v }},
		{"inside another value", 0, func(n, v string) string { return "x=" + n + ":" + v }},
		{"last character changed", 0, func(n, v string) string { return n + "=" + v[:len(v)-1] + flipc(v[len(v)-1]) }},
		{"first character changed", 0, func(n, v string) string { return n + "=" + flipc(v[0]) + v[1:] }},
		{"shortened", 0, func(n, v string) string { return n + "=" + v[:len(v)-1] }},
		{"extended", 0, func(n, v string) string { return n + "=" + v + "a" }},
		{"upper case", 0, func(n, v string) string { return n + "=" + strings.ToUpper(v) }},
		{"empty", 0, func(n, v string) string { return n + "=" }},
		{"name only", 0, func(n, v string) string { return n }},
		{"deleted", 0, func(n, v string) string { return n + "=deleted" }},
		{"none", 0, func(n, v string) string { return "" }},
		{"garbage", 0, func(n, v string) string { return "\x00\xff;;;=;" }},
		{"very long", 0, func(n, v string) string { return n + "=" + strings.Repeat("a", 100000) }},
		{"path traversal", 0, func(n, v string) string { return n + "=../" + v }},
	}
	auths := []string{"", "Bearer x", "BEARER-OWN", "Basic dTpw"}
	product(c, "session cookie forms", []int{len(forms), len(auths), 3}, func(i []int) (string, interface{}, string) {
		f := forms[i[0]]
		show := map[string]interface{}{"cookie": f.name, "authorization": auths[i[1]], "offset": i[2]}
		s := newStage(stageCfg{})
		defer s.Close()
		n, v, bad := s.login("s", "u", "cid")
		if bad != "" {
			return bad, show, ""
		}
		t := s.Last()
		s.NoRefresh = true
		s.Offset = []time.Duration{0, 59 * time.Minute, 30 * time.Minute}[i[2]]
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: f.f(n, v), Auth: auths[i[1]]}
		if r.Auth == "BEARER-OWN" {
			r.Auth = t.Bearer() // tokens in the header do not replace the session
		}
		if strings.ToUpper(v) == v && f.name == "upper case" {
			return "", show, "skip"
		}
		res := s.Do(r)
		switch {
		case res.Kind == lib.KPanic:
			return "panic: " + res.Err, show, ""
		case f.want == 0 && res.Kind == lib.KOK:
			return fmt.Sprintf("passes: %v", res), show, ""
		case f.want == 1 && (res.Kind != lib.KOK || res.OutAuth != t.Bearer()):
			return fmt.Sprintf("answered %v, expected to pass with the session's tokens", res), show, ""
		case res.Kind == lib.KOK && res.OutAuth != t.Bearer():
			return fmt.Sprintf("forwarded with other tokens: %v", res), show, ""
		case res.Kind != lib.KOK && res.Kind != lib.KRedirect:
			return fmt.Sprintf("answered %v, expected a redirect to the identity provider", res), show, ""
		}
		// the session survives other people's wrong cookies
		if f.want == 0 && f.name != "other name" {
			if again := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v}); again.Kind != lib.KOK || again.OutAuth != t.Bearer() {
				return fmt.Sprintf("after a request with a wrong cookie (%v) the session itself is answered %v", res, again), show, ""
			}
		}
		return "", show, res.Kind
	})
}

func flipc(b byte) string {
	if b == 'a' {
		return "b"
	}
	return "a"
}

// currentValidity: a session whose tokens stop satisfying the policy does not pass.
func currentValidity(c *lib.Check) {
	type change struct {
		name string
		pass int
		f    func(s *stage)
	}
	set := func(rules []v1.Rule) func(s *stage) {
		return func(s *stage) {
			s.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o", rules...))))
		}
	}
	changes := []change{
		{"nothing changes", 1, func(s *stage) {}},
		{"rule the tokens satisfy", 1, set(rule("sub", "ALL", "", "u"))},
		{"rule the access token violates", 0, set(rule("sub", "ALL", "access_token", "x"))},
		{"rule the ID token violates", 0, set(rule("sub", "ANY", "id_token", "x"))},
		{"NOT rule the ID token violates", 0, set(rule("sub", "NOT", "id_token", "u"))},
		{"rule on a missing claim", 0, set(rule("zz", "", "", "x"))},
		{"signing key withdrawn and configuration reloaded", 0, func(s *stage) {
			s.SetKeys(lib.K("b"))
			s.W.Set(lib.OidcConfig("ns", "o", "cid", s.URL("disc")))
		}},
		{"configuration replaced by an equal one", 1, func(s *stage) { s.W.Set(lib.OidcConfig("ns", "o", "cid", s.URL("disc"))) }},
		{"policy replaced by an equal one", 1, set(nil)},
		{"configuration for another client id", 0, func(s *stage) {
			s.Secrets["new"] = "secret-new"
			s.W.Set(lib.OidcConfig("ns", "o", "new", s.URL("disc")))
		}},
		{"tokens expired", 0, func(s *stage) { s.Offset = 61 * time.Minute }},
		{"tokens about to expire", 1, func(s *stage) { s.Offset = 58 * time.Minute }},
		{"configuration deleted", 0, func(s *stage) { s.W.Del(v1.OIDCCONFIG, "ns", "o") }},
	}
	product(c, "tokens no longer valid", []int{len(changes), len(changes)}, func(i []int) (string, interface{}, string) {
		a, b := changes[i[0]], changes[i[1]]
		show := a.name + ", then " + b.name
		if a.name == "configuration deleted" || strings.HasPrefix(a.name, "signing key") || (i[0] != 0 && strings.HasPrefix(a.name, "tokens")) {
			return "", nil, "skip"
		}
		s := newStage(stageCfg{})
		defer s.Close()
		s.NoRefresh = true
		n, v, bad := s.login("s", "u", "cid")
		if bad != "" {
			return bad, show, ""
		}
		t := s.Last()
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v}
		for k, ch := range []change{a, b} {
			ch.f(s)
			want := ch.pass
			if k == 1 && (a.pass == 0 || ch.pass == 0) {
				want = 0 // a session found invalid has ended; an invalidating change stays
				if a.pass == 0 && ch.pass == 1 {
					want = 2
				}
			}
			res := s.Do(r)
			if res.Kind == lib.KPanic {
				return "panic: " + res.Err, show, ""
			}
			if want == 1 && (res.Kind != lib.KOK || res.OutAuth != t.Bearer()) {
				return fmt.Sprintf("after %q a valid session is answered %v", ch.name, res), show, ""
			}
			if want == 0 && res.Kind == lib.KOK {
				return fmt.Sprintf("after %q a session whose tokens are not valid for the policy passes: %v", ch.name, res), show, ""
			}
		}
		return "", show, "ok"
	})
}

// userInfoSequences: an opaque access token is valid while, and only while, the provider's userinfo endpoint says so.
func userInfoSequences(c *lib.Check) {
	sets := []struct {
		name  string
		rules []v1.Rule
	}{
		{"default rules", nil},
		{"an empty list of rules", []v1.Rule{}},
		{"a rule on the ID token", rule("sub", "ALL", "id_token", "u")},
		{"two rules on the ID token", append(rule("sub", "ANY", "id_token", "u", "v"), rule("aud", "", "id_token", "cid")...)},
	}
	answers := []struct {
		name string
		lib.Answer
	}{
		{"accepts", lib.Answer{Status: 200, Body: `{"sub":"u"}`}},
		{"401", lib.Answer{Status: 401}},
		{"403 with claims", lib.Answer{Status: 403, Body: `{"sub":"u"}`}},
		{"500", lib.Answer{Status: 500, Body: "oops"}},
		{"204", lib.Answer{Status: 204}},
		{"unreachable", lib.Answer{Err: lib.ErrNet}},
		{"timeout", lib.Answer{Err: lib.ErrTimeout}},
	}
	pauses := []time.Duration{0, 5 * time.Second, 50 * time.Minute}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	n := len(answers)
	runs := 1
	for k := 0; k < depth; k++ {
		runs *= n
	}
	tokens := []string{"opaque-token", "not.a.jwt", "eyJhbGciOiJub25lIn0.e30."}
	product(c, "userinfo answers", []int{len(sets), runs, len(pauses), len(tokens), 2}, func(i []int) (string, interface{}, string) {
		set := sets[i[0]]
		var seq []int
		var names []string
		for k, x := 0, i[1]; k < depth; k++ {
			seq, x = append(seq, x%n), x/n
			names = append(names, answers[seq[k]].name)
		}
		show := map[string]interface{}{"rules": set.name, "answers after the login": names, "pause before each": pauses[i[2]].String(), "access token": tokens[i[3]], "a second session": i[4] == 1}
		s := newStage(stageCfg{})
		defer s.Close()
		pp := lib.Pol("oidc", "o")
		pp.Rules = set.rules
		s.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", pp)))
		s.NoRefresh = true
		ans := answers[0].Answer
		s.UserInfo = func(r *lib.Rec) lib.Answer { return ans }
		users := []string{"u"}
		if i[4] == 1 && set.rules == nil {
			users = []string{"u", "other user"}
		} else if i[4] == 1 {
			users = []string{"u", "u"}
		}
		var cookies []string
		for m := range users {
			tok := tokens[i[3]]
			if m == 1 {
				tok += "2"
			}
			s.Token = func(r *lib.Rec) lib.Answer {
				d := s.Mint("u", "cid").Body()
				d["access_token"] = tok
				delete(d, "refresh_token")
				return lib.OK(lib.JSON(d))
			}
			cn, v, bad := s.login("s", users[m], "cid")
			if bad != "" {
				return bad, show, ""
			}
			cookies = append(cookies, cn+"="+v)
		}
		ended := map[int]bool{}
		for k, x := range seq {
			ans = answers[x].Answer
			s.Offset += pauses[i[2]]
			for m, ck := range cookies {
				if m == 1 && k%2 == 0 && k != depth-1 {
					continue // the second session is used less often
				}
				res := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: ck})
				expired := s.Offset >= time.Hour
				switch {
				case res.Kind == lib.KPanic:
					return "panic: " + res.Err, show, ""
				case (x != 0 || expired) && res.Kind == lib.KOK:
					return fmt.Sprintf("request %d of session %d passes although the provider does not accept its access token: %v", k+1, m+1, res), show, ""
				case x == 0 && !expired && !ended[m] && res.Kind != lib.KOK:
					return fmt.Sprintf("request %d of session %d, whose tokens are valid, is answered %v", k+1, m+1, res), show, ""
				case x != 0 || expired:
					ended[m] = true
				}
			}
		}
		return "", show, "as the provider says"
	})
}

// ---------------------------------------------------------------- C11

func logoutForms(c *lib.Check) {
	cookies := []string{"live", "none", "ended", "other service's", "garbage", "state", "live and others"}
	extra := []lib.Req{{}, {Code: "c", State: "s"}, {Error: "e"}, {Auth: "Bearer x"}, {Method: "POST"}}
	paths := append([]string{"/p", "//evil.test", "/\\evil.test", "/a/b/c", "///x", "/a/oidc/x", "/oidc", "/a/b/oidc", "/a/oidc2/logoutx", "/oidc/logout/x", "/a/oidc/logout/b", "/a/oidc/callback/b"}, urlPaths...)
	product(c, "logout requests", []int{len(cookies), len(extra), len(paths)}, func(i []int) (string, interface{}, string) {
		ck, e, path := cookies[i[0]], extra[i[1]], paths[i[2]]
		show := map[string]interface{}{"cookie": ck, "extra": i[1], "path": path}
		if strings.Contains(path, "/../") {
			return "", nil, "skip"
		}
		s := newStage(stageCfg{})
		defer s.Close()
		n, v, bad := s.login("s", "u", "cid")
		tu := s.Last()
		n2, v2, bad2 := s.login("s", "w", "cid")
		tw := s.Last()
		n3, v3, bad3 := s.login("s2", "u", "other")
		to := s.Last()
		if bad+bad2+bad3 != "" {
			return "", show, "skip"
		}
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: path + "/oidc/logout", Code: e.Code, State: e.State, Error: e.Error, Auth: e.Auth}
		if e.Method != "" {
			r.Method = e.Method
		}
		ended := false
		switch ck {
		case "live":
			r.Cookies, ended = n+"="+v, true
		case "live and others":
			r.Cookies, ended = "a=b; "+n3+"="+v3+"; "+n+"="+v, true
		case "ended":
			r.Cookies, ended = n+"="+v, true
			_ = s.Do(r)
		case "other service's":
			r.Cookies = n3 + "=" + v3
		case "garbage":
			r.Cookies = n + "=zzzz"
		case "state":
			x := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"})
			_, sv := x.Cookie()
			r.Cookies = n + "=" + sv
		}
		res := s.Do(r)
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, show, ""
		}
		if res.Kind != lib.KRedirect || len(res.OutAuth)+len(res.OutCookie) > 0 {
			return fmt.Sprintf("logout answered %v", res), show, ""
		}
		base := path
		if base == "" {
			base = "/"
		}
		u, err := url.Parse(res.Location)
		if err != nil && !strings.Contains(path, "%") || err == nil && u.Host != "" && u.Host != "app.test" || strings.HasPrefix(res.Location, "//") || strings.HasPrefix(res.Location, "/\\") {
			return "logout redirects to another host: " + res.Location, show, ""
		}
		if path == "/p" || path == "/a/b/c" || strings.Contains(path, "/oidc") || path == "/" || path == "" || path == "/a" {
			loc := strings.TrimPrefix(res.Location, "https://app.test")
			if loc == "" {
				loc = "/"
			}
			if loc != base {
				return fmt.Sprintf("logout of %s redirects to %q", base, res.Location), show, ""
			}
		}
		if strings.HasPrefix(ck, "live") || ck == "ended" {
			if cn, _ := res.Cookie(); cn != n || !lib.Expired(res.SetCookie) || !lib.Everywhere(res.SetCookie) {
				return "logout does not expire the session cookie: " + res.SetCookie, show, ""
			}
		}
		for k := 0; k < 2; k++ {
			mine := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v})
			if ended && mine.Kind == lib.KOK {
				return fmt.Sprintf("the session still passes after its logout: %v", mine), show, ""
			}
			if !ended && (mine.Kind != lib.KOK || mine.OutAuth != tu.Bearer()) {
				return fmt.Sprintf("a logout without its cookie affected a session: %v", mine), show, ""
			}
		}
		if x := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n2 + "=" + v2}); x.Kind != lib.KOK || x.OutAuth != tw.Bearer() {
			return fmt.Sprintf("another user's session was affected: %v", x), show, ""
		}
		if x := s.Do(lib.Req{NS: "ns", Svc: "s2", Method: "GET", Path: "/p", Cookies: n3 + "=" + v3}); x.Kind != lib.KOK || x.OutAuth != to.Bearer() {
			return fmt.Sprintf("the session of another client was affected: %v", x), show, ""
		}
		return "", show, fmt.Sprint(ck, " ", ended)
	})
}

// ---------------------------------------------------------------- C12

// longRefresh keeps sessions alive over many refreshes.
func longRefresh(c *lib.Check) {
	styles := []string{"refresh-%d", "r+%d/=&x y", "%d", "eyJ.%d.x", "ü%%41-%d", "growing", "shrinking"}
	rot := []string{"rotating", "not rotating", "same token returned", "not returned"}
	product(c, "long sessions", []int{len(styles), len(rot)}, func(i []int) (string, interface{}, string) {
		show := map[string]string{"refresh tokens": styles[i[0]], "provider": rot[i[1]]}
		s := newStage(stageCfg{})
		defer s.Close()
		s.Rotate = i[1] == 0
		k := 0
		cur := ""
		s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			k++
			name := ""
			switch styles[i[0]] {
			case "growing":
				name = strings.Repeat("r", k)
			case "shrinking":
				name = strings.Repeat("r", 30-k)
			default:
				name = fmt.Sprintf(styles[i[0]], k)
			}
			if kind == "refresh" && i[1] >= 2 {
				name = cur
				if i[1] == 3 {
					name = ""
				}
			}
			if name != "" {
				s.Refresh[name] = &lib.Grant{User: g.User, Client: g.Client}
				if i[1] != 1 && cur != "" && cur != name {
					delete(s.Refresh, cur)
				}
				cur = name
			}
			delete(s.Refresh, t.Refresh)
			t.Refresh = name
			s.Minted[len(s.Minted)-1] = t
			return t.Body()
		}
		n, v, bad := s.login("s", "u", "cid")
		if bad != "" {
			return bad, show, ""
		}
		for round := 1; round <= 12; round++ {
			s.Offset += 90 * time.Minute
			res := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v})
			if res.Kind != lib.KOK || res.OutAuth != s.Last().Bearer() {
				return fmt.Sprintf("refresh %d failed: %v; %s", round, res, lastForm(s.Lab)), show, ""
			}
			if cn, cv := lib.ParseSetCookie(res.OutCookie); res.OutCookie != "" && (cn != n || cv != v) {
				return fmt.Sprintf("refresh %d changed the session cookie to %s=%s", round, cn, cv), show, ""
			}
			served := s.Served
			if res := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v}); res.Kind != lib.KOK || res.OutAuth != s.Last().Bearer() || s.Served != served {
				return fmt.Sprintf("after refresh %d the session is answered %v", round, res), show, ""
			}
		}
		return "", show, "12 refreshes"
	})
}

func rule(claim, match, src string, vals ...string) []v1.Rule {
	return []v1.Rule{{Claim: claim, Match: match, Source: src, Values: vals}}
}

// refreshProduct lets every refresh outcome meet every rule set.
func refreshProduct(c *lib.Check) {
	std := func(kv ...interface{}) lib.Claims {
		cl := lib.Std("u", "cid").With("c", "x").With("d", "y")
		for i := 0; i+1 < len(kv); i += 2 {
			cl = cl.With(kv[i].(string), kv[i+1])
		}
		return cl
	}
	both := func(a, i lib.Claims) func(lib.TokenSet) map[string]interface{} {
		return func(t lib.TokenSet) map[string]interface{} {
			t.Access, t.ID = lib.JWT("a", a), lib.JWT("a", i)
			return t.Body()
		}
	}
	outs := tokOutcomes()
	outs = append(outs,
		tokOutcome{name: "claims as required", ok: 1, shape: both(std(), std())},
		tokOutcome{name: "ID token: claim c differs", ok: 3, shape: both(std(), std("c", "q"))},
		tokOutcome{name: "ID token: claim c missing", ok: 3, shape: both(std(), lib.Std("u", "cid"))},
		tokOutcome{name: "access token: claim d differs", ok: 4, shape: both(std("d", "q"), std())},
		tokOutcome{name: "access token: claim d missing", ok: 4, shape: both(lib.Std("u", "cid"), std())},
		tokOutcome{name: "claims exchanged", ok: 5, shape: both(std("c", "y", "d", "x"), std("c", "y", "d", "x"))},
	)
	ruleSets := [][]v1.Rule{nil, rule("c", "ALL", "id_token", "x"), rule("d", "ANY", "access_token", "y"), append(append(rule("d", "ANY", "", "y"), rule("c", "NOT", "id_token", "q", "y")...), rule("c", "ANY", "id_token", "x")...)}
	after := []string{"", "visit", "recovery", "recovery after an hour"}
	product(c, "refresh outcomes", []int{len(outs), len(ruleSets), len(after), 2}, func(i []int) (string, interface{}, string) {
		o, rs, then := outs[i[0]], ruleSets[i[1]], after[i[2]]
		show := map[string]interface{}{"outcome": o.name, "rules": fmt.Sprint(rs), "then": then, "other session": i[3]}
		s := newStage(stageCfg{rules: rs})
		defer s.Close()
		s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			cl := lib.Std(g.User, g.Client).With("c", "x").With("d", "y").With("exp", lib.In(s.Offset+80*time.Minute))
			t.Access, t.ID = lib.JWT("a", cl.With("jti", len(s.Minted))), lib.JWT("a", cl)
			s.Minted[len(s.Minted)-1] = t
			return t.Body()
		}
		n, v, bad := s.login("s", "u", "cid")
		if bad != "" {
			return bad, show, ""
		}
		n2, v2 := "", ""
		if i[3] == 1 {
			if n2, v2, bad = s.login("s", "w", "cid"); bad != "" {
				return bad, show, ""
			}
		}
		s.Offset += 90 * time.Minute
		shape := s.Shape
		s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			if g.User != "u" || o.shape == nil {
				return shape(kind, g, t)
			}
			b := o.shape(t)
			t.Access, _ = b["access_token"].(string)
			t.ID, _ = b["id_token"].(string)
			s.Minted[len(s.Minted)-1] = t
			return b
		}
		s.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if ep == "token" && o.fault != nil && o.fault.Body != "TOKENS" {
				return o.fault
			}
			if ep == "userinfo" && o.user != 0 {
				return &lib.Answer{Status: o.user, Body: `{"sub":"u"}`}
			}
			return nil
		}
		want := o.ok
		switch {
		case want == 3 && (i[1] == 0 || i[1] == 2), want == 4 && i[1] < 2, want == 5 && i[1] == 0:
			want = 1
		case want > 2:
			want = 0
		}
		if i[1] > 0 && i[0] < len(tokOutcomes()) && o.shape != nil {
			want = 0 // those tokens lack the claims
			if o.name == "opaque access token, userinfo accepts" || o.name == "ID token for another client" || o.name == "access token for another client" {
				want = 2
			}
		}
		if o.fault != nil && o.fault.Body == "TOKENS" {
			want = 2
		}
		req := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v}
		judge := func(res lib.Res, want int) string {
			switch {
			case res.Kind == lib.KPanic:
				return "panic: " + res.Err
			case want == 0:
				if _, err := lib.ParseAuth(res.Location); res.Kind != lib.KRedirect || err != nil || len(res.OutAuth) > 0 {
					return fmt.Sprintf("not sent to log in: %v", res)
				}
			case want == 1:
				if res.Kind != lib.KOK || res.OutAuth != s.Last().Bearer() {
					return fmt.Sprintf("does not pass with the new tokens: %v", res)
				}
				if cn, cv := lib.ParseSetCookie(res.OutCookie); res.OutCookie != "" && (cn != n || cv != v) {
					return "the session id changed: " + res.OutCookie
				}
			}
			return ""
		}
		res := s.Do(req)
		if bad := judge(res, want); bad != "" {
			return bad, show, ""
		}
		if want == 1 {
			served := s.Served
			if again := s.Do(req); again.Kind != lib.KOK || again.OutAuth != res.OutAuth || s.Served != served {
				return fmt.Sprintf("the refreshed session does not continue: %v", again), show, ""
			}
			if strings.HasPrefix(then, "recovery") { // the next refresh finds the session the first one left
				s.Fault, s.Shape = nil, shape
				s.Offset += 25 * time.Hour
				if again := s.Do(req); again.Kind != lib.KOK || again.OutAuth != s.Last().Bearer() || s.Served == served {
					return fmt.Sprintf("the session's second refresh: %v; %s", again, lastForm(s.Lab)), show, ""
				}
			}
		} else if want == 0 && then != "" {
			if strings.HasPrefix(then, "recovery") {
				s.Fault, s.Shape = nil, shape
			}
			if strings.HasSuffix(then, "hour") {
				s.Offset += time.Hour
			}
			again := s.Do(req)
			// whether a failed refresh ends the session is open; passing needs new, valid tokens
			if again.Kind == lib.KPanic || again.Kind == lib.KOK && (then == "visit" || again.OutAuth != s.Last().Bearer()) {
				return fmt.Sprintf("after the failed refresh: %v", again), show, ""
			}
			if again.Kind != lib.KOK {
				if bad := judge(again, 0); bad != "" {
					return "after the failed refresh: " + bad, show, ""
				}
			}
		}
		if n2 != "" {
			s.Fault, s.Shape = nil, shape
			if x := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n2 + "=" + v2}); x.Kind != lib.KOK || x.OutAuth != s.Last().Bearer() {
				return fmt.Sprintf("the other session is not refreshed: %v", x), show, ""
			}
		}
		return "", show, fmt.Sprint(o.name, " ", want, " ", res.Kind)
	})
}

func traces(c *lib.Check) {
	c.Cov["model_bound_to_code"] = "every state is an execution of the real adapter code; no abstract model is involved"
}

func c09() {
	c := lib.NewCheck("C09", "model_checking")
	webHistories(c)
	redirectProduct(c)
	cookieForms(c)
	currentValidity(c)
	userInfoSequences(c)
	policyMix(c)
	manySessions(c)
	traces(c)
	c.Finish()
}

func c10() {
	c := lib.NewCheck("C10", "model_checking")
	webHistories(c)
	callbackProduct(c)
	landingProduct(c)
	pendingLogins(c)
	traces(c)
	c.Finish()
}

func c11() {
	c := lib.NewCheck("C11", "model_checking")
	webHistories(c)
	refreshHistories(c)
	logoutForms(c)
	manySessions(c)
	concurrent(c)
	traces(c)
	c.Finish()
}

func c12() {
	c := lib.NewCheck("C12", "model_checking")
	refreshHistories(c)
	longRefresh(c)
	refreshProduct(c)
	manySessions(c)
	traces(c)
	c.Finish()
}

func init() { checks["C09"], checks["C10"], checks["C11"], checks["C12"] = c09, c10, c11, c12 }
