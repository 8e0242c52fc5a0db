//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// C25: confidentiality. Every case runs under a guard (lib.Guard) which knows the secrets in play and examines every
// answer, every request to a provider and every log entry.

// confInst has two providers, a client at each, and an API.
type confInst struct {
	a, b   *lib.Lab
	hist   []int
	jar    [2][2]string // session cookie of user u at service s
	state  [2]string    // a login in progress (state cookie header)
	par    [2]lib.Auth
	fa, fb int
	moved  bool
	rot    bool
}

var confTok = []*lib.Answer{nil, {Status: 400, Body: `{"error":"invalid_grant","error_description":"no"}`}, {Err: lib.ErrNet}, {Status: 200, Body: `<html>`}}
var confUser = []*lib.Answer{nil, {Status: 401, Body: `{"error":"invalid_token"}`}, {Err: lib.ErrTimeout}, {Status: 500, Body: "oops"}}

var confEvents = []string{"user 0 logs in at service 0", "user 0 logs in at service 1", "user 1 logs in at service 0", "user 1 logs in at service 1",
	"user 0 visits service 0", "user 0 visits service 1", "user 1 visits service 0", "user 1 visits service 1", "user 0 logs out at both", "90 minutes pass",
	"the first provider's token endpoint changes its behaviour", "the second provider's userinfo endpoint changes its behaviour", "the first provider rotates its keys",
	"user 0 returns to service 0 with a wrong state", "user 0 returns to service 1 with an error", "user 1 returns to service 0 with a code already used",
	"API request with user 0's tokens", "API request with a forged token", "API request with user 1's opaque token", "API request with an expired token", "client 0 moves to the other provider", "the configurations are delivered again"}

func newConf() *confInst {
	polInit()
	x := &confInst{a: lib.NewLab(), b: lib.NewLab()}
	x.a.W = lib.NewWorld(polKube, nil)
	x.b.W = x.a.W
	x.a.SetSecret("client0", "secret-client0")
	x.b.SetSecret("client1", "secret-client1")
	x.b.SetKeys(lib.K("b"))
	x.b.UserInfo = func(r *lib.Rec) lib.Answer { return lib.OK(`{"sub":"u"}`) }
	shape := func(l *lib.Lab, key string, opaque bool) func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		return func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			cl := lib.Std(g.User, g.Client).With("jti", fmt.Sprint(l.ID, len(l.Minted), kind)).With("exp", lib.In(l.Offset+time.Hour))
			k := key
			if x.rot && l == x.a {
				k = "c"
			}
			t.Access, t.ID = lib.JWT(k, cl.With("typ", "access")), lib.JWT(k, cl.With("typ", "id"))
			if opaque {
				t.Access = fmt.Sprintf("opaque-%s-%d-%s-zq", l.ID, len(l.Minted), g.User)
			}
			l.Minted[len(l.Minted)-1] = t
			return t.Body()
		}
	}
	x.a.Shape, x.b.Shape = shape(x.a, "a", false), shape(x.b, "b", true)
	x.a.Fault = func(ep string, r *lib.Rec) *lib.Answer {
		if ep == "token" {
			return confTok[x.fa]
		}
		return nil
	}
	x.b.Fault = func(ep string, r *lib.Rec) *lib.Answer {
		if ep == "userinfo" {
			return confUser[x.fb]
		}
		return nil
	}
	x.deliver()
	x.a.W.Set(lib.Policy("ns", "p0", "svc0", lib.Path("", "/", "ALL", lib.Pol("oidc", "o0"))))
	x.a.W.Set(lib.Policy("ns", "p1", "svc1", lib.Path("", "/", "ALL", lib.Pol("oidc", "o1", v1.Rule{Claim: "aud", Match: "ANY", Source: "id_token", Values: []string{"client1"}}))))
	x.a.W.Set(lib.Policy("ns", "pj", "api", lib.Path("", "/", "ALL", lib.Pol("jwt", "j", v1.Rule{Claim: "aud", Match: "ANY", Values: []string{"client0"}}))))
	for _, e := range []int{0, 3} {
		x.do(e)
	}
	return x
}

func (x *confInst) deliver() {
	u := x.a.URL("disc")
	if x.moved {
		u = x.b.URL("disc")
	}
	x.a.W.Set(lib.OidcConfig("ns", "o0", "client0", u))
	o := lib.OidcConfig("ns", "o1", "client1", x.b.URL("disc"))
	o.Spec.AuthMethod = "client_secret_post"
	x.a.W.Set(o)
	x.a.W.Set(lib.JwtConfig("ns", "j", x.a.URL("jwks")))
}

func (x *confInst) lab(s int) *lib.Lab {
	if s == 1 || x.moved {
		return x.b
	}
	return x.a
}

func (x *confInst) req(u, s int) lib.Req {
	r := lib.Req{NS: "ns", Svc: fmt.Sprintf("svc%d", s), Method: "GET", Path: "/p", Host: fmt.Sprintf("s%d.test", s)}
	if u >= 0 {
		r.Cookies = x.jar[u][s]
	}
	return r
}

func (x *confInst) send(r lib.Req) lib.Res {
	x.b.Offset = x.a.Offset
	return x.a.Do(r)
}

func (x *confInst) begin(s int) (a lib.Auth, cookie string, ok bool) {
	res := x.send(x.req(-1, s))
	a, err := lib.ParseAuth(res.Location)
	n, v := res.Cookie()
	return a, n + "=" + v, res.Kind == lib.KRedirect && err == nil && v != ""
}

func (x *confInst) login(u, s int) {
	a, cookie, ok := x.begin(s)
	if !ok {
		return
	}
	r := x.req(-1, s)
	r.Path, r.Cookies, r.State = "/p/oidc/callback", cookie, a.State
	r.Code = x.lab(s).Code(fmt.Sprintf("user%d", u), fmt.Sprintf("client%d", s), a.Redirect)
	res := x.send(r)
	if n, v := res.Cookie(); v != "" && !lib.Expired(res.SetCookie) {
		x.jar[u][s] = n + "=" + v
	}
}

func (x *confInst) api(auth string) { x.send(lib.Req{NS: "ns", Svc: "api", Method: "GET", Path: "/p", Auth: auth}) }

func (x *confInst) do(e int) bool {
	switch {
	case e < 4:
		x.login(e/2, e%2)
	case e < 8:
		u, s := (e-4)/2, (e-4)%2
		res := x.send(x.req(u, s))
		if res.Kind == lib.KPanic {
			panic(res.Err)
		}
	case e == 8:
		for s := 0; s < 2; s++ {
			r := x.req(0, s)
			r.Path = "/p/oidc/logout"
			x.send(r)
		}
	case e == 9:
		x.a.Offset += tickLen
	case e == 10:
		x.fa = (x.fa + 1) % len(confTok)
	case e == 11:
		x.fb = (x.fb + 1) % len(confUser)
	case e == 12:
		if x.rot {
			return false
		}
		x.rot = true
		x.a.SetKeys(lib.K("c"))
	case e >= 13 && e <= 15:
		u, s := 0, 0
		if e == 14 {
			s = 1
		}
		if e == 15 {
			u = 1
		}
		a, cookie, ok := x.begin(s)
		if !ok {
			return true
		}
		r := x.req(-1, s)
		r.Path, r.Cookies, r.State = "/p/oidc/callback", cookie, a.State
		r.Code = x.lab(s).Code(fmt.Sprintf("user%d", u), fmt.Sprintf("client%d", s), a.Redirect)
		switch e {
		case 13:
			r.State += "x"
		case 14:
			r.Error = "access_denied"
		case 15:
			x.lab(s).Codes[r.Code].Used = true
		}
		x.send(r)
	case e == 16:
		if len(x.a.Minted) == 0 {
			return false
		}
		t := x.a.Minted[0]
		x.api("Bearer " + t.Access + " " + t.ID)
	case e == 17:
		x.api("Bearer " + lib.Sign(`{"alg":"RS256","kid":"zz"}`, lib.JSON(lib.Std("u", "client0")), "RS256", lib.Key("c")))
	case e == 18:
		if len(x.b.Minted) == 0 {
			return false
		}
		x.api("Bearer " + x.b.Minted[0].Access)
	case e == 19:
		x.api("Bearer " + lib.JWT("a", lib.Std("u", "client0").With("exp", lib.In(-time.Hour))))
	case e == 20:
		x.moved = !x.moved
		x.a.SetSecret("client0", map[bool]string{false: "secret-client0"}[x.moved])
		x.b.SetSecret("client0", map[bool]string{true: "secret-client0"}[x.moved])
		x.deliver()
	case e == 21:
		x.deliver()
	}
	return true
}

func (x *confInst) step(ev int) (string, bool) {
	x.hist = append(x.hist, ev)
	return "", x.do(ev)
}
func (x *confInst) key() string   { return fmt.Sprint(x.hist) } // every history is explored
func (x *confInst) probe() string { return "" }
func (x *confInst) close()        { x.a.Close(); x.b.Close() }

func c25() {
	polInit()
	lib.GuardLogs()
	c := lib.NewCheck("C25", "model_checking")
	m := &model{name: "two providers", n: len(confEvents), depth: c.Pick(3, 4), show: func(e int) string { return confEvents[e] }, start: func() inst { return newConf() }}
	m.bfs(c)
	confMessages(c)
	confAPI(c)
	endpointForms(c)
	webHistories(c)
	refreshHistories(c)
	callbackProduct(c)
	refreshProduct(c)
	longRefresh(c)
	cookieForms(c)
	logoutForms(c)
	clientSecrets(c)
	upstreamFailures(c)
	redirectAnswers(c)
	processLogs(c)
	oidcKeys(c)
	cookieKeys(c, c.Pick(2, 4))
	traces(c)
	c.Finish()
}

// confMessages: malformed messages whose remaining parts carry credentials.
func confMessages(c *lib.Check) {
	paths := []string{"/p", "/p/oidc/callback", "/p/oidc/logout"}
	product(c, "malformed messages", []int{64, 4, len(paths), 2}, func(i []int) (string, interface{}, string) {
		s := newStage(stageCfg{})
		defer s.Close()
		s.W.Set(lib.JwtConfig("ns", "j", s.URL("jwks")))
		s.W.Set(lib.Policy("ns", "pj", "api", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		show := map[string]interface{}{"missing parts (mask)": i[0], "service": i[1], "path": paths[i[2]], "method": i[3]}
		n, v, bad := s.login("s", "u", "cid")
		if bad != "" {
			return bad, show, ""
		}
		res := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"})
		a, _ := lib.ParseAuth(res.Location)
		sn, sv := res.Cookie()
		r := lib.Req{NS: "ns", Svc: []string{"s", "api", "none", ""}[i[1]], Path: paths[i[2]], Method: []string{"GET", ""}[i[3]], Auth: s.Last().Bearer(), Cookies: n + "=" + v, Code: s.Code("u", "cid", a.Redirect), State: a.State}
		if i[2] == 1 {
			r.Cookies = sn + "=" + sv
		}
		m := r.Msg()
		mask := i[0]
		if mask&16 != 0 {
			m.Instance.Request.Headers = nil
		}
		if mask&32 != 0 {
			m.Instance.Request.Params = nil
		}
		if mask&8 != 0 {
			m.Instance.Request = nil
		}
		if mask&4 != 0 {
			m.Instance.Target = nil
		}
		if mask&2 != 0 {
			m.Instance = nil
		}
		if mask&1 != 0 {
			m = nil
		}
		x := lib.DoMsg(s.W.Adapter, m)
		return "", show, x.Kind
	})
}

// confAPI: Authorization headers of every shape, carrying tokens of every kind, in every state of the key set.
func confAPI(c *lib.Check) {
	forms := []string{"Bearer T", "bearer T", "Bearer T I", "Bearer I T", "Bearer T T", "Bearer T I T", "Bearer T x", "Bearer x T", "T", "Basic T", "Bearer,T", "Bearer  T", "Bearer T ", " Bearer T", "Bearer\tT", "BearerT", "Bearer \"T\"", "Bearer T,I", "Digest T I", "Bearer access_token=T"}
	std := lib.Std("user-zq", "cid").With("scope", "a b")
	toks := []string{"valid", "expired", "not yet valid", "forged", "unknown kid", "no kid", "unsigned", "HS256", "cut", "other claims", "opaque", "payload no JSON", "numeric claim"}
	mk := func(t, typ string) string {
		cl := std.With("typ", typ)
		switch t {
		case "expired":
			return lib.JWT("a", cl.With("exp", lib.In(-time.Hour)))
		case "not yet valid":
			return lib.JWT("a", cl.With("nbf", lib.In(time.Hour)))
		case "forged":
			return lib.Sign(`{"alg":"RS256","kid":"a"}`, lib.JSON(cl), "RS256", lib.Key("b"))
		case "unknown kid":
			return lib.Sign(`{"alg":"RS256","kid":"zz"}`, lib.JSON(cl), "RS256", lib.Key("b"))
		case "no kid":
			return lib.Sign(`{"alg":"RS256"}`, lib.JSON(cl), "RS256", lib.Key("a"))
		case "unsigned":
			return lib.Sign(`{"alg":"none","kid":"a"}`, lib.JSON(cl), "none", nil)
		case "HS256":
			return lib.Sign(`{"alg":"HS256","kid":"a"}`, lib.JSON(cl), "HS256", []byte("k"))
		case "cut":
			s := lib.JWT("a", cl)
			return s[:len(s)-5]
		case "other claims":
			return lib.JWT("a", lib.Std("user-zq", "other").With("typ", typ))
		case "opaque":
			return "opaque-" + typ + "-123456789"
		case "payload no JSON":
			return lib.Sign(`{"alg":"RS256","kid":"a"}`, `not json at all`, "RS256", lib.Key("a"))
		case "numeric claim":
			return lib.JWT("a", cl.With("scope", 5).With("aud", 7))
		}
		return lib.JWT("a", cl)
	}
	rules := [][]v1.Rule{nil, rule("aud", "ANY", "", "cid"), append(rule("scope", "ALL", "", "a", "zz"), rule("aud", "NOT", "id_token", "cid")...)}
	faults := bodyFaults()
	if !c.Thorough() {
		faults = append(faults[:4:4], faults[6], faults[9], faults[14], faults[22])
	}
	cols := []string{"keys fetched before", "not fetched before"}
	product(c, "API requests", []int{len(forms), len(toks), len(rules), len(faults), len(cols)}, func(i []int) (string, interface{}, string) {
		show := map[string]interface{}{"header": forms[i[0]], "tokens": toks[i[1]], "rules": fmt.Sprint(rules[i[2]]), "key set endpoint": faults[i[3]].name, "cache": cols[i[4]]}
		l := lib.NewLab()
		defer l.Close()
		l.W = lib.NewWorld(polKube, polWeb)
		fail := i[4] == 1
		l.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if ep == "jwks" && fail {
				return faults[i[3]].a
			}
			return nil
		}
		l.W.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
		l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j", rules[i[2]]...))))
		fail = true
		t, id := mk(toks[i[1]], "access"), mk(toks[i[1]], "id")
		l.Guard().Keep(lib.SBearer, t, "")
		l.Guard().Keep(lib.SBearer, id, "")
		auth := strings.NewReplacer("T", t, "I", id).Replace(strings.Replace(forms[i[0]], "access_token=T", "access_token=T", 1))
		res := l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x", Auth: auth})
		return "", show, res.Kind
	})
}

func init() { checks["C25"] = c25 }

// redirectAnswers: an endpoint of the provider sends the adapter to another host. Secrets stay with the provider.
// Excluded: a token endpoint that asks, with 307 or 308, for the form to be sent again elsewhere.
func redirectAnswers(c *lib.Check) {
	codes := []int{301, 302, 303, 307, 308}
	methods := []string{"", "client_secret_basic", "client_secret_post"}
	flows := []string{"API request", "first visit", "callback", "session", "session, opaque access token", "refresh", "refresh to an opaque access token"}
	targets := []string{"http://elsewhere.test/x", "https://elsewhere.test/x?y=z", "//elsewhere.test", "http://elsewhere.test:99/token"}
	product(c, "redirecting providers", []int{len(upEndpoints), len(codes), len(methods), len(flows), len(targets)}, func(i []int) (string, interface{}, string) {
		ep, code, flow := upEndpoints[i[0]], codes[i[1]], flows[i[3]]
		show := map[string]interface{}{"endpoint": ep, "status": code, "location": targets[i[4]], "authentication": methods[i[2]], "flow": flow}
		if ep == "token" && code > 303 {
			return "", show, "skip"
		}
		opaque := strings.Contains(flow, "opaque")
		s := newStage(stageCfg{})
		defer s.Close()
		o := lib.OidcConfig("ns", "o", "cid", s.URL("disc"))
		o.Spec.AuthMethod = methods[i[2]]
		deliver := func() { s.W.Set(o.DeepCopy()); s.W.Set(lib.JwtConfig("ns", "j", s.URL("jwks"))) }
		deliver()
		s.W.Set(lib.Policy("ns", "pj", "api", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		if opaque {
			pp := lib.Pol("oidc", "o")
			pp.Rules = []ruleT{{Claim: "aud", Match: "ANY", Source: "id_token", Values: []string{"cid"}}}
			s.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", pp)))
		}
		s.UserInfo = func(r *lib.Rec) lib.Answer { return lib.OK(`{"sub":"u"}`) }
		s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			cl := lib.Std(g.User, g.Client)
			if strings.HasPrefix(flow, "refresh") && kind == "code" {
				cl = cl.With("exp", lib.In(30*time.Minute))
			}
			t.Access, t.ID = lib.JWT("a", cl), lib.JWT("a", cl)
			if opaque && (kind != "code" || !strings.HasPrefix(flow, "refresh")) {
				t.Access = "opaque-token-of-the-session"
			}
			s.Minted[len(s.Minted)-1] = t
			return t.Body()
		}
		on, hits := false, 0
		s.Fault = func(e string, r *lib.Rec) *lib.Answer {
			if !on || e != ep {
				return nil
			}
			hits++
			return &lib.Answer{Status: code, Header: map[string][]string{"Location": {targets[i[4]]}}}
		}
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"}
		switch flow {
		case "API request":
			r.Svc, r.Auth = "api", "Bearer "+lib.JWT("a", lib.Std("u", "cid"))
		case "first visit":
		case "callback":
			res := s.Do(r)
			a, err := lib.ParseAuth(res.Location)
			if err != nil {
				return "", show, "skip"
			}
			b := lib.NewBrowser()
			b.Apply(res)
			r.Path, r.Cookies, r.Code, r.State = "/p/oidc/callback", b.Cookies(), s.Code("u", "cid", a.Redirect), a.State
		default:
			n, v, bad := s.login("s", "u", "cid")
			if bad != "" {
				return "", show, "skip"
			}
			r.Cookies = n + "=" + v
		}
		if strings.HasPrefix(flow, "refresh") {
			s.Offset = time.Hour
		}
		on = true
		if ep == "disc" || ep == "jwks" {
			deliver()
		}
		res := s.Do(r)
		return "", show, fmt.Sprintf("%s redirects %d times: %s", ep, hits, res.Kind)
	})
}
