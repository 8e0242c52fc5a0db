//go:build go1.21

package main

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// C09-C12: browser histories against the real web strategy, with a reference model of states and sessions.

// mode is how the identity provider answers a refresh.
type mode struct {
	name string
	good bool // the new tokens satisfy the policy
	// either: the statement leaves both answers open
	either bool
	fault  *lib.Answer
	shape  func(l *lib.Lab, g *lib.Grant, t lib.TokenSet) map[string]interface{}
}

func body(t lib.TokenSet) map[string]interface{} { return t.Body() }

var modes = []mode{
	{name: "agree", good: true},
	{name: "agree, keeping the refresh token", good: true, shape: func(l *lib.Lab, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		g.Used = false
		delete(l.Refresh, t.Refresh)
		t.Refresh = ""
		return body(t)
	}},
	{name: "refuse", fault: &lib.Answer{Status: 400, Body: `{"error":"invalid_grant","error_description":"no"}`}},
	{name: "unreachable", fault: &lib.Answer{Err: lib.ErrNet}},
	{name: "500", fault: &lib.Answer{Status: 500, Body: `oops`}},
	{name: "not JSON", fault: &lib.Answer{Status: 200, Body: `<html>`}},
	{name: "empty object", fault: &lib.Answer{Status: 200, Body: `{}`}},
	{name: "tokens for another client", shape: func(l *lib.Lab, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		t.Access, t.ID = lib.JWT("a", lib.Std(g.User, "other")), lib.JWT("a", lib.Std(g.User, "other"))
		return body(t)
	}},
	{name: "ID token signed by another key", shape: func(l *lib.Lab, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		t.ID = lib.Sign(`{"alg":"RS256","kid":"a"}`, lib.JSON(lib.Std(g.User, g.Client)), "RS256", lib.Key("b"))
		return body(t)
	}},
	{name: "expired tokens", shape: func(l *lib.Lab, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		t.Access, t.ID = lib.JWT("a", lib.Std(g.User, g.Client).With("exp", lib.In(-time.Hour))), lib.JWT("a", lib.Std(g.User, g.Client).With("exp", lib.In(-time.Hour)))
		return body(t)
	}},
	{name: "no ID token", shape: func(l *lib.Lab, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		t.ID = ""
		return body(t)
	}},
	{name: "403 without body", fault: &lib.Answer{Status: 403}},
	{name: "truncated answer", fault: &lib.Answer{Status: 200, Body: `{"access_token":"x","id_to`, Trunc: true}},
}

// wstate is a login in progress; wsess a session. Both are known to the browser by a cookie value.
type wstate struct {
	cookie, name, state, client, redirect string
	issued                                time.Duration
}

type wsess struct {
	cookie, name, client, user string
	live                       bool
	limbo                      bool // a refresh failed: passing is allowed only with freshly obtained tokens
	toks                       lib.TokenSet
	exp                        time.Duration
	refresh                    string
	old                        []string // cookies of the session which an answer has replaced by another one
}

// webCfg is one bounded space.
type webCfg struct {
	name     string
	props    string // property this run decides
	browsers int
	clients  int
	evs      []webEv
	depth    int
	idExp    bool // only the ID token expires
	accExp   bool // only the access token expires
	noRef    bool // no refresh tokens
}

type webEv struct {
	op   string
	b, c int
	arg  string
	m    int
}

func (e webEv) String() string {
	s := e.op
	switch e.op {
	case "tick", "half":
		return map[string]string{"tick": "90 minutes pass", "half": "40 minutes pass"}[e.op]
	case "mode":
		return "from now on the identity provider answers refreshes: " + modes[e.m].name
	}
	if e.arg != "" {
		s += "(" + e.arg + ")"
	}
	return fmt.Sprintf("browser %d %s at service %d", e.b, s, e.c)
}

type webInst struct {
	cfg    *webCfg
	l      *lib.Lab
	br     []*lib.Browser
	pend   map[[2]int]*wstate
	states []*wstate
	sess   []*wsess
	seen   map[string]bool // ids and states must differ
	mode   int
	broken bool
}

const tickLen = 90 * time.Minute

func (cfg *webCfg) start() inst {
	polInit()
	x := &webInst{cfg: cfg, l: lib.NewLab(), pend: map[[2]int]*wstate{}, seen: map[string]bool{}}
	x.l.NoRefresh = cfg.noRef
	x.l.W = lib.NewWorld(polKube, nil)
	for c := 0; c < cfg.clients; c++ {
		id := fmt.Sprintf("client%d", c)
		x.l.Secrets[id] = "secret-" + id
		x.l.W.Set(lib.OidcConfig("ns", "o"+id, id, x.l.URL("disc")))
		x.l.W.Set(lib.Policy("ns", "p"+id, fmt.Sprintf("svc%d", c), lib.Path("", "/", "ALL", lib.Pol("oidc", "o"+id))))
	}
	for b := 0; b < cfg.browsers; b++ {
		x.br = append(x.br, lib.NewBrowser())
	}
	x.l.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		far := lib.In(2000 * time.Hour)
		std := lib.Std(g.User, g.Client).With("jti", fmt.Sprint(x.l.ID, "-", len(x.l.Minted)))
		if cfg.idExp {
			t.Access = lib.JWT("a", std.With("typ", "access").With("exp", far))
		}
		if cfg.accExp {
			t.ID = lib.JWT("a", std.With("typ", "id").With("exp", far))
		}
		x.l.Minted[len(x.l.Minted)-1] = t
		if kind == "refresh" && modes[x.mode].shape != nil {
			return modes[x.mode].shape(x.l, g, t)
		}
		return t.Body()
	}
	x.l.Fault = func(ep string, r *lib.Rec) *lib.Answer {
		if ep == "token" && r.Form.Get("grant_type") == "refresh_token" {
			return modes[x.mode].fault
		}
		return nil
	}
	return x
}

func (x *webInst) close() { x.l.Close() }

// flag reports a deviation that belongs to one of the listed properties.
func (x *webInst) flag(props, f string, a ...interface{}) string {
	if strings.Contains(props, x.cfg.props) {
		return fmt.Sprintf(f, a...)
	}
	x.broken = true
	return ""
}

func (x *webInst) req(b, c int) lib.Req {
	return lib.Req{NS: "ns", Svc: fmt.Sprintf("svc%d", c), Method: "GET", Path: "/p", Host: fmt.Sprintf("s%d.test", c), Cookies: x.br[b].Cookies()}
}

// newState checks a login redirect and registers its state.
func (x *webInst) newState(b, c int, r lib.Req, res lib.Res) string {
	client := fmt.Sprintf("client%d", c)
	if res.Kind != lib.KRedirect {
		return x.flag("C09", "a request without a session was answered %v instead of a redirect to the identity provider", res)
	}
	a, err := lib.ParseAuth(res.Location)
	want := lib.Auth{Endpoint: x.l.URL("auth"), ClientID: client, ResponseType: "code", Scope: "openid profile email", Redirect: "https://" + r.Host + r.Path + "/oidc/callback", State: a.State}
	if err != nil || fmt.Sprint(a) != fmt.Sprint(want) {
		return x.flag("C09", "login redirect has %+v, expected %+v", a, want)
	}
	n, v := res.Cookie()
	if bad := stateCookieBad(a.State, n, v); bad != "" {
		return x.flag("C09", "%s", bad)
	}
	if x.seen[a.State] || x.seen[v] {
		return x.flag("C09 C13", "state or state cookie was used before")
	}
	if len(res.OutAuth)+len(res.OutCookie) > 0 {
		return x.flag("C09", "login redirect carries output headers: %v", res)
	}
	x.seen[a.State], x.seen[v] = true, true
	s := &wstate{v, n, a.State, client, a.Redirect, x.l.Offset}
	x.states = append(x.states, s)
	x.pend[[2]int{b, c}] = s
	x.br[b].Apply(res)
	return ""
}

func stateCookieBad(state, name, v string) string {
	if len(state) < 8 {
		return fmt.Sprintf("state %q is missing or too short to be unpredictable", state)
	}
	if name == "" || v == "" {
		return "no state cookie was set"
	}
	dec := ""
	for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding, base64.RawURLEncoding} {
		if b, err := enc.DecodeString(v); err == nil {
			dec += string(b)
			if p := strings.Split(string(b), "|"); len(p) > 1 {
				if b2, err := base64.URLEncoding.DecodeString(p[1]); err == nil {
					dec += string(b2)
				}
			}
		}
	}
	if strings.Contains(v, state) || strings.Contains(dec, state) {
		return "the state is readable in the state cookie: " + v
	}
	return ""
}

func (x *webInst) jarSessions(b int, client string) (live []*wsess) {
	for _, v := range x.br[b].Jar {
		for _, s := range x.sess {
			if s.cookie == v && s.client == client && s.live {
				live = append(live, s)
			}
		}
	}
	return
}

// visit sends a request and compares its answer.
func (x *webInst) visit(b, c int) string {
	r := x.req(b, c)
	client := fmt.Sprintf("client%d", c)
	live := x.jarSessions(b, client)
	served := x.l.Served
	var ended bool
	for _, v := range x.br[b].Jar {
		for _, s := range x.sess {
			ended = ended || (s.cookie == v && !s.live)
		}
	}
	res := x.l.Do(r)
	if res.Kind == lib.KPanic {
		return x.flag("C09 C10 C11 C12", "panic: %s", res.Err)
	}
	if len(live) == 0 {
		if res.Kind == lib.KOK {
			p := "C09"
			if ended {
				p = "C09 C11 C12"
			}
			return x.flag(p, "request without a live session passed: %v (cookies %s)", res, r.Cookies)
		}
		return x.newState(b, c, r, res)
	}
	for _, s := range live {
		if s.exp > x.l.Offset {
			if res.Kind == lib.KOK && res.OutAuth == s.toks.Bearer() {
				return ""
			}
			continue
		}
		// expired
		m := modes[x.mode]
		canRefresh := s.refresh != "" && x.l.Refresh[s.refresh] != nil
		_ = canRefresh
		if res.Kind == lib.KOK && x.l.Served > served && m.good {
			t := x.l.Last()
			if res.OutAuth != t.Bearer() {
				return x.flag("C12 C09", "refreshed request forwarded with %q, expected the new tokens %q", res.OutAuth, t.Bearer())
			}
			if g := x.l.Refresh[s.refresh]; g == nil || g.User != s.user || g.Client != s.client {
				return x.flag("C12 C09", "session of %s was refreshed with another session's refresh token", s.user)
			}
			if n, v := lib.ParseSetCookie(res.OutCookie); res.OutCookie != "" && (n != s.name || v != s.cookie) {
				if x.cfg.props == "C11" && n != "" && v != "" && v != s.cookie {
					s.old = append(s.old, s.name+"="+s.cookie)
					s.name, s.cookie, s.toks, s.exp, s.refresh = n, v, t, x.l.Offset+x.l.Life, t.Refresh
					x.br[b].Apply(res)
					x.br[b].Jar[n] = v
					return ""
				}
				return x.flag("C12", "refreshed session continues under cookie %s=%s instead of %s=%s", n, v, s.name, s.cookie)
			}
			if _, ok := x.l.Refresh[t.Refresh]; ok {
				s.refresh = t.Refresh
			}
			s.toks, s.exp, s.limbo = t, x.l.Offset+x.l.Life, false
			x.br[b].Apply(res)
			return ""
		}
		if res.Kind != lib.KOK {
			g := x.l.Refresh[s.refresh]
			if m.good && !s.limbo && g != nil && !g.Used {
				return x.flag("C12", "session with a valid refresh token was not renewed: %v (token requests: %s)", res, lastForm(x.l))
			}
			s.limbo = true
			return x.newState(b, c, r, res)
		}
		return x.flag("C12 C09", "request of an expired session passed although its refresh did not succeed (provider: %s): %v", m.name, res)
	}
	if res.Kind == lib.KOK {
		return x.flag("C09 C12 C13", "request forwarded with %q, which are not its session's tokens %q", res.OutAuth, live[0].toks.Bearer())
	}
	return x.flag("C09 C11 C12", "request of a live session was answered %v", res)
}

func lastForm(l *lib.Lab) string {
	r := l.Requests("token")
	if len(r) == 0 {
		return "none"
	}
	return r[len(r)-1].Form.Encode()
}

// callback returns from the identity provider.
func (x *webInst) callback(b, c int, code, state, errp, redirect string) string {
	client := fmt.Sprintf("client%d", c)
	r := x.req(b, c)
	r.Path, r.Code, r.State, r.Error = "/p/oidc/callback", code, state, errp
	// reference: does the browser hold the state cookie of this state?
	var own *wstate
	for n, v := range x.br[b].Jar {
		for _, s := range x.states {
			if s.cookie == v && s.name == n && s.state == state && s.client == client && x.l.Offset-s.issued < time.Hour {
				own = s
			}
		}
	}
	g := x.l.Codes[code]
	okCode := g != nil && !g.Used && g.Client == client && g.Redirect == "https://"+r.Host+r.Path
	user := ""
	if g != nil {
		user = g.User
	}
	res := x.l.Do(r)
	if res.Kind == lib.KPanic {
		return x.flag("C09 C10 C11 C12", "panic: %s", res.Err)
	}
	if res.Kind == lib.KOK || len(res.OutAuth)+len(res.OutCookie) > 0 {
		return x.flag("C09 C10", "callback was let through: %v", res)
	}
	n, v := res.Cookie()
	toIdp := strings.HasPrefix(res.Location, x.l.URL("auth"))
	if own != nil && okCode && errp == "" {
		want := strings.TrimSuffix(own.redirect, "/oidc/callback")
		once := want
		for strings.HasSuffix(want, "/oidc/callback") { // a login that was started at the callback endpoint
			want = strings.TrimSuffix(want, "/oidc/callback")
		}
		if res.Kind != lib.KRedirect || (res.Location != want && res.Location != once) || n == "" || v == "" {
			return x.flag("C10", "a correct login was answered %v, expected a redirect to %s with a session cookie", res, want)
		}
		if x.seen[v] || len(v) < 10 {
			return x.flag("C10 C13", "session id %q was used before or is too short", v)
		}
		x.seen[v] = true
		t := x.l.Last()
		exp := x.l.Offset + x.l.Life
		x.sess = append(x.sess, &wsess{cookie: v, name: n, client: client, user: user, live: true, toks: t, exp: exp, refresh: t.Refresh})
		x.br[b].Apply(res)
		return ""
	}
	if res.Kind == lib.KRedirect && toIdp && code == "" {
		r2 := r
		return x.newState(b, c, r2, res)
	}
	if res.Kind == lib.KRedirect && !toIdp {
		return x.flag("C10", "callback completed although state, code or error do not allow it: %v (own state cookie: %v, code valid: %v, error %q)", res, own != nil, okCode, errp)
	}
	if v != "" && !lib.Expired(res.SetCookie) && !toIdp {
		return x.flag("C10", "failed callback set a cookie: %v", res)
	}
	if x.l.Served > len(x.sess)+x.refreshes() && own == nil {
		return x.flag("C10", "the authorization code was redeemed although the state does not belong to the browser")
	}
	x.br[b].Apply(res)
	return ""
}

func (x *webInst) refreshes() int {
	n := 0
	for _, r := range x.l.Requests("token") {
		if r.Form.Get("grant_type") == "refresh_token" {
			n++
		}
	}
	return n
}

func (x *webInst) logout(b, c int) string {
	client := fmt.Sprintf("client%d", c)
	r := x.req(b, c)
	r.Path = "/p/oidc/logout"
	var mine []*wsess
	for _, v := range x.br[b].Jar {
		for _, s := range x.sess {
			if s.cookie == v && s.client == client {
				mine = append(mine, s)
				s.live = false
			}
		}
	}
	res := x.l.Do(r)
	if res.Kind == lib.KPanic {
		return x.flag("C09 C10 C11 C12", "panic: %s", res.Err)
	}
	if res.Kind == lib.KOK || len(res.OutAuth)+len(res.OutCookie) > 0 {
		return x.flag("C09 C11", "logout was let through: %v", res)
	}
	if res.Kind != lib.KRedirect || (res.Location != "/p" && res.Location != "https://"+r.Host+"/p") {
		return x.flag("C11", "logout answered %v, expected a redirect to /p", res)
	}
	n, _ := res.Cookie()
	for _, s := range mine {
		if n != s.name || !lib.Expired(res.SetCookie) {
			return x.flag("C11", "logout does not expire the session cookie %s: %q", s.name, res.SetCookie)
		}
		for _, o := range s.old {
			r := x.req(b, c)
			r.Cookies = o
			if res := x.l.Do(r); res.Kind == lib.KOK {
				return x.flag("C11", "after logout a request with an earlier cookie of the session passes: %v", res)
			}
		}
	}
	x.br[b].Apply(res)
	return ""
}

func (x *webInst) step(ev int) (string, bool) {
	if x.broken {
		return "", false
	}
	e := x.cfg.evs[ev]
	switch e.op {
	case "tick":
		x.l.Offset += tickLen
		return "", true
	case "half":
		x.l.Offset += 40 * time.Minute
		return "", true
	case "mode":
		if x.mode == e.m {
			return "", false
		}
		x.mode = e.m
		return "", true
	case "visits":
		return x.visit(e.b, e.c), true
	case "logs out":
		return x.logout(e.b, e.c), true
	}
	p := x.pend[[2]int{e.b, e.c}]
	client := fmt.Sprintf("client%d", e.c)
	user := fmt.Sprintf("user%d", e.b)
	switch e.op {
	case "logs in": // visit and complete
		for k := range x.br[e.b].Jar {
			delete(x.br[e.b].Jar, k)
		}
		if bad := x.visit(e.b, e.c); bad != "" || x.broken {
			return bad, true
		}
		p = x.pend[[2]int{e.b, e.c}]
		return x.callback(e.b, e.c, x.l.Code(user, client, p.redirect), p.state, "", p.redirect), true
	case "restores the state cookie and completes its login":
		if p == nil {
			return "", false
		}
		x.br[e.b].Jar[p.name] = p.cookie
		return x.callback(e.b, e.c, x.l.Code(user, client, p.redirect), p.state, "", p.redirect), true
	case "completes its login":
		if p == nil {
			return "", false
		}
		return x.callback(e.b, e.c, x.l.Code(user, client, p.redirect), p.state, "", p.redirect), true
	case "is lured to a callback":
		switch e.arg {
		case "other user's code and state", "other user's code, own state":
			var o *wstate
			ob := -1
			for k, s := range x.pend {
				if k[0] != e.b && k[1] == e.c {
					o, ob = s, k[0]
				}
			}
			if o == nil || (e.arg == "other user's code, own state" && p == nil) {
				return "", false
			}
			state := o.state
			if e.arg != "other user's code and state" {
				state = p.state
			}
			return x.callback(e.b, e.c, x.l.Code(fmt.Sprintf("user%d", ob), client, o.redirect), state, "", o.redirect), true
		case "other service's state, after its cookie was copied":
			// the browser also holds the other service's state cookie under this service's name
			o := x.pend[[2]int{e.b, 1 - e.c}]
			if o == nil {
				return "", false
			}
			own := strings.Replace(o.name, o.client, client, 1)
			x.br[e.b].Jar[own] = o.cookie
			return x.callback(e.b, e.c, x.l.Code(user, client, "https://"+x.req(e.b, e.c).Host+"/p/oidc/callback"), o.state, "", "https://"+x.req(e.b, e.c).Host+"/p/oidc/callback"), true
		case "other service's state":
			o := x.pend[[2]int{e.b, 1 - e.c}]
			if o == nil || p == nil {
				return "", false
			}
			return x.callback(e.b, e.c, x.l.Code(user, client, p.redirect), o.state, "", p.redirect), true
		}
		if p == nil {
			return "", false
		}
		code := x.l.Code(user, client, p.redirect)
		switch e.arg {
		case "no state":
			return x.callback(e.b, e.c, code, "", "", p.redirect), true
		case "wrong state":
			return x.callback(e.b, e.c, code, p.state+"x", "", p.redirect), true
		case "error":
			return x.callback(e.b, e.c, code, p.state, "access_denied", p.redirect), true
		case "unknown code":
			return x.callback(e.b, e.c, "made-up", p.state, "", p.redirect), true
		case "no code":
			return x.callback(e.b, e.c, "", p.state, "", p.redirect), true
		}
	}
	return "", false
}

// key renames random values by their role.
func (x *webInst) key() string {
	if x.broken {
		return "broken"
	}
	names := map[string]string{}
	var b strings.Builder
	label := func(v, n string) {
		if _, ok := names[v]; !ok && v != "" {
			names[v] = n
		}
	}
	age := func(d time.Duration) string {
		if d > 0 {
			return "fresh" + d.String()
		}
		return "old"
	}
	describe := func(v string) string {
		for _, s := range x.states {
			if s.cookie == v {
				return fmt.Sprintf("state(%s,%s,%s)", s.client, s.redirect, age(s.issued+time.Hour-x.l.Offset))
			}
		}
		for _, s := range x.sess {
			if s.cookie == v {
				return fmt.Sprintf("session(%s,%s,live=%v)", s.client, s.user, s.live)
			}
		}
		return "?"
	}
	for i, br := range x.br {
		var ns []string
		for n := range br.Jar {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			label(br.Jar[n], fmt.Sprintf("jar%d-%s", i, n))
			fmt.Fprintf(&b, "%s=%s;", names[br.Jar[n]], describe(br.Jar[n]))
		}
		for c := 0; c < x.cfg.clients; c++ {
			if p := x.pend[[2]int{i, c}]; p != nil {
				label(p.cookie, fmt.Sprintf("pend%d-%d", i, c))
				fmt.Fprintf(&b, "pend=%s %s;", names[p.cookie], age(p.issued+time.Hour-x.l.Offset))
			}
		}
	}
	n := 0
	for _, s := range x.sess {
		if s.live {
			label(s.cookie, fmt.Sprintf("other%d", n))
			n++
			g := x.l.Refresh[s.refresh]
			fmt.Fprintf(&b, "%s:%s,%s,%v,%s,ref=%v;", names[s.cookie], s.client, s.user, s.limbo, age(s.exp-x.l.Offset), g != nil && !g.Used)
			label(s.toks.Access, names[s.cookie]+"-acc")
			label(s.toks.ID, names[s.cookie]+"-id")
			label(s.refresh, names[s.cookie]+"-ref")
		}
	}
	fmt.Fprintf(&b, "mode=%d", x.mode)
	unknown := 0
	b.WriteString(lib.DumpWith(x.l.W.Web, func(s string) string {
		if r, ok := names[s]; ok {
			return r
		}
		if len(s) > 200 || strings.HasPrefix(s, "refresh-") || x.seen[s] {
			unknown++
			names[s] = fmt.Sprintf("unknown%d", unknown)
			return names[s]
		}
		return s
	}))
	return b.String()
}

// probe presents every session cookie ever issued.
func (x *webInst) probe() string {
	if x.broken {
		return ""
	}
	for _, s := range x.sess {
		for c := 0; c < x.cfg.clients; c++ {
			r := lib.Req{NS: "ns", Svc: fmt.Sprintf("svc%d", c), Method: "GET", Path: "/p", Cookies: s.name + "=" + s.cookie}
			own := s.client == fmt.Sprintf("client%d", c)
			if !own {
				continue
			}
			served := x.l.Served
			res := x.l.Do(r)
			if res.Kind == lib.KPanic {
				return x.flag("C09 C10 C11 C12", "panic: %s", res.Err)
			}
			switch {
			case res.Kind == lib.KOK && !s.live:
				return x.flag("C09 C11", "the ended session %s of %s still passes: %v", s.cookie, s.user, res)
			case s.live && s.exp > x.l.Offset && (res.Kind != lib.KOK || res.OutAuth != s.toks.Bearer()):
				return x.flag("C09 C11 C12", "the live session %s of %s is answered %v, expected to pass with its own tokens", s.cookie, s.user, res)
			case s.live && s.exp <= x.l.Offset && res.Kind == lib.KOK:
				g := x.l.Refresh[s.refresh]
				if !modes[x.mode].good || x.l.Served == served || g == nil || g.User != s.user || res.OutAuth != x.l.Last().Bearer() {
					return x.flag("C09 C12", "the expired session %s of %s passes without a successful refresh of its own: %v", s.cookie, s.user, res)
				}
				if t := x.l.Last(); t.Refresh != "" && x.l.Refresh[t.Refresh] != nil {
					s.refresh = t.Refresh
				}
				s.toks, s.exp = x.l.Last(), x.l.Offset+x.l.Life
			case s.live && s.exp <= x.l.Offset && modes[x.mode].good && !s.limbo:
				if g := x.l.Refresh[s.refresh]; g != nil && !g.Used {
					return x.flag("C12", "the expired session %s of %s was not renewed: %v", s.cookie, s.user, res)
				}
			}
		}
	}
	// other clients' cookies and state cookies are no sessions
	for _, s := range x.sess {
		for c := 0; c < x.cfg.clients; c++ {
			other := fmt.Sprintf("client%d", c)
			if s.client == other {
				continue
			}
			name := strings.Replace(s.name, s.client, other, 1)
			if res := x.l.Do(lib.Req{NS: "ns", Svc: fmt.Sprintf("svc%d", c), Method: "GET", Path: "/p", Cookies: name + "=" + s.cookie}); res.Kind == lib.KOK {
				return x.flag("C09", "a session of %s passes as a session of %s: %v", s.client, other, res)
			}
		}
	}
	for _, s := range x.states {
		for _, v := range []string{s.cookie, s.state} {
			if res := x.l.Do(lib.Req{NS: "ns", Svc: "svc" + strings.TrimPrefix(s.client, "client"), Method: "GET", Path: "/p", Cookies: s.name + "=" + v}); res.Kind == lib.KOK {
				return x.flag("C09 C10", "a state cookie passes as a session: %v", res)
			}
		}
	}
	return ""
}

func (cfg *webCfg) run(c *lib.Check) {
	if c.Stop() {
		return
	}
	m := &model{name: cfg.name, n: len(cfg.evs), depth: cfg.depth, start: cfg.start, show: func(e int) string { return cfg.evs[e].String() }}
	m.bfs(c)
}

func webEvents(browsers, clients int, ops ...string) (l []webEv) {
	for _, op := range ops {
		if op == "tick" || op == "half" {
			l = append(l, webEv{op: op})
			continue
		}
		arg := ""
		if i := strings.Index(op, ": "); i > 0 {
			op, arg = op[:i], op[i+2:]
		}
		for b := 0; b < browsers; b++ {
			for c := 0; c < clients; c++ {
				l = append(l, webEv{op: op, b: b, c: c, arg: arg})
			}
		}
	}
	return
}

func modeEvents(all bool) (l []webEv) {
	for i := range modes {
		if all || i < 3 || modes[i].name == "tokens for another client" {
			l = append(l, webEv{op: "mode", m: i})
		}
	}
	return
}

var basicOps = []string{"visits", "completes its login", "logs out", "tick"}
var attackOps = []string{"is lured to a callback: other user's code and state", "is lured to a callback: other user's code, own state",
	"is lured to a callback: no state", "is lured to a callback: wrong state", "is lured to a callback: error", "is lured to a callback: unknown code", "is lured to a callback: no code"}

func webHistories(c *lib.Check) {
	p := c.Prop
	cat := func(a ...[]string) (l []string) {
		for _, x := range a {
			l = append(l, x...)
		}
		return
	}
	(&webCfg{name: "two users, one client", props: p, browsers: 2, clients: 1, evs: webEvents(2, 1, basicOps...), depth: c.Pick(12, 20)}).run(c)
	(&webCfg{name: "one user, two clients", props: p, browsers: 1, clients: 2, evs: webEvents(1, 2, cat(basicOps, []string{"half", "is lured to a callback: other service's state", "is lured to a callback: other service's state, after its cookie was copied"})...), depth: c.Pick(8, 13)}).run(c)
	(&webCfg{name: "no refresh tokens", props: p, browsers: 1, clients: 2, evs: webEvents(1, 2, basicOps...), depth: c.Pick(10, 16), noRef: true}).run(c)
	(&webCfg{name: "two logins from one state cookie", props: p, browsers: 1, clients: 1, evs: webEvents(1, 1, cat(basicOps, []string{"restores the state cookie and completes its login"})...), depth: c.Pick(8, 14)}).run(c)
	if p == "C09" {
		for _, v := range []struct {
			n             string
			id, acc, noRf bool
		}{{"only the ID token expires", true, false, false}, {"only the ID token expires, no refresh tokens", true, false, true}, {"only the access token expires", false, true, false}, {"only the access token expires, no refresh tokens", false, true, true}} {
			(&webCfg{name: v.n, props: p, browsers: 1, clients: 1, idExp: v.id, accExp: v.acc, noRef: v.noRf, evs: append(webEvents(1, 1, basicOps...), modeEvents(false)...), depth: c.Pick(9, 14)}).run(c)
		}
	}
	if p == "C10" || p == "C09" {
		(&webCfg{name: "attacked logins", props: p, browsers: 2, clients: 1, evs: webEvents(2, 1, cat(basicOps, attackOps)...), depth: c.Pick(7, 11)}).run(c)
	}
	if c.Thorough() {
		(&webCfg{name: "two users, two clients", props: p, browsers: 2, clients: 2, evs: webEvents(2, 2, basicOps...), depth: 10}).run(c)
	}
}

func refreshHistories(c *lib.Check) {
	p := c.Prop
	ops := []string{"logs in", "visits", "logs out", "tick"}
	(&webCfg{name: "refresh outcomes", props: p, browsers: 1, clients: 1, evs: append(webEvents(1, 1, ops...), modeEvents(true)...), depth: c.Pick(9, 14)}).run(c)
	(&webCfg{name: "refresh, only the ID token expires", props: p, browsers: 1, clients: 1, idExp: true, evs: append(webEvents(1, 1, ops...), modeEvents(c.Thorough())...), depth: c.Pick(9, 14)}).run(c)
	(&webCfg{name: "refresh, only the access token expires", props: p, browsers: 1, clients: 1, accExp: true, evs: append(webEvents(1, 1, ops...), modeEvents(c.Thorough())...), depth: c.Pick(9, 14)}).run(c)
	(&webCfg{name: "refresh of two users", props: p, browsers: 2, clients: 1, evs: append(webEvents(2, 1, ops...), modeEvents(false)...), depth: c.Pick(7, 11)}).run(c)
	(&webCfg{name: "refresh at two clients", props: p, browsers: 1, clients: 2, evs: append(webEvents(1, 2, "completes its login", "visits", "logs out", "tick"), modeEvents(false)...), depth: c.Pick(7, 11)}).run(c)
}
