//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vclock"
)

// C13 and C11: logins, session requests, refreshes and logouts of several users.

const day = 24 * time.Hour

// site is an adapter protecting service s with client c1 and service s2 with client c2.
type site struct {
	p      *prov
	w      *lib.World
	offset time.Duration
	r      *run
	ops    []*op
	users  map[string][]lib.TokenSet
	client map[string]string
	cookie map[string]string // of a finished login
	lives  map[string][]time.Duration
}

// op is one request and what it must do.
type op struct {
	*call
	kind, user string
}

func newSite(offset time.Duration) *site {
	s := &site{p: newProv("sess", lib.K("a")), offset: offset, r: &run{}, users: map[string][]lib.TokenSet{}, client: map[string]string{}, cookie: map[string]string{}, lives: map[string][]time.Duration{}}
	k := lib.NewKube()
	k.PutCookieKeys(9)
	s.w = lib.NewWorld(k, nil)
	for i, svc := range []string{"s", "s2"} {
		c := fmt.Sprint("c", i+1)
		s.w.Set(lib.OidcConfig("n", "o"+c, c, s.p.url("disc")))
		s.w.Set(lib.Policy("n", "p"+c, svc, lib.Path("", "/", "ALL", lib.Pol("oidc", "o"+c))))
	}
	s.r.check = s.check
	return s
}

func (s *site) svc(user string) string {
	if s.client[user] == "c2" {
		return "s2"
	}
	return "s"
}

func (s *site) user(name, client string, lives ...time.Duration) {
	s.client[name] = client
	s.lives[name] = lives
	s.users[name] = s.p.user(name, client, lives...)
}

// visit is what a browser without cookies does.
func (s *site) visit(user string) lib.Req {
	return lib.Req{NS: "n", Svc: s.svc(user), Path: "/page", Method: "GET"}
}

// callback visits and returns the request of the identity provider's redirect.
func (s *site) callback(user string) lib.Req {
	v := s.w.Do(s.visit(user))
	return s.callbackOf(user, v)
}

func (s *site) callbackOf(user string, v lib.Res) lib.Req {
	a, err := lib.ParseAuth(v.Location)
	n, c := v.Cookie()
	if v.Kind != lib.KRedirect || err != nil || n == "" {
		panic(lib.HarnessError{Msg: "no login redirect: " + v.String()})
	}
	return lib.Req{NS: "n", Svc: s.svc(user), Path: "/page/oidc/callback", Method: "GET", Code: "code-" + user, State: a.State, Cookies: n + "=" + c}
}

// login completes a login before the threads start.
func (s *site) login(user string) {
	v := s.w.Do(s.callback(user))
	n, c := v.Cookie()
	if v.Kind != lib.KRedirect || n == "" {
		panic(lib.HarnessError{Msg: "login failed: " + v.String()})
	}
	s.cookie[user] = n + "=" + c
}

func (s *site) request(user string) lib.Req {
	r := s.visit(user)
	r.Cookies = s.cookie[user]
	return r
}

func (s *site) logout(user string) lib.Req {
	r := s.request(user)
	r.Path = "/page/oidc/logout"
	return r
}

// thread adds a thread performing one request.
func (s *site) thread(kind, user string) {
	var r lib.Req
	switch kind {
	case "visit":
		r = s.visit(user)
	case "callback":
		vclock.Set(s.offset)
		r = s.callback(user)
		vclock.Set(0)
	case "request":
		r = s.request(user)
	case "logout":
		r = s.logout(user)
	}
	o := &op{newCall(r), kind, user}
	s.ops = append(s.ops, o)
	s.r.thread(kind+" "+user, func() { o.do(s.w.Adapter) })
}

// own tells whether an answer forwards the request with one of the user's token sets, and which.
func (s *site) own(user string, r lib.Res) int {
	if r.Kind != lib.KOK {
		return -1
	}
	for i, t := range s.users[user] {
		if r.OutAuth == t.Bearer() {
			return i
		}
	}
	return -2
}

func (s *site) describe(auth string) string {
	for u, l := range s.users {
		for i, t := range l {
			if auth == t.Bearer() {
				return fmt.Sprintf("token set %d of user %s", i, u)
			}
		}
	}
	return "unknown tokens " + auth
}

func (s *site) check() (string, string) {
	var outs []string
	states := map[string]string{}
	ids := map[string]string{}
	for u, c := range s.cookie {
		ids[c] = u
	}
	loggedOut := map[string]*op{} // the logout that ended first
	for _, o := range s.ops {
		o.classify()
		if o.kind == "logout" && (loggedOut[o.user] == nil || o.end < loggedOut[o.user].end) {
			loggedOut[o.user] = o
		}
	}
	for _, o := range s.ops {
		r := o.res
		what := o.kind + " of " + o.user
		out := r.Kind
		switch o.kind {
		case "visit":
			a, err := lib.ParseAuth(r.Location)
			n, _ := r.Cookie()
			if r.Kind != lib.KRedirect || err != nil || n == "" || a.State == "" || a.ClientID != s.client[o.user] {
				return what + " is not redirected to the login: " + r.String(), out
			}
			if states[a.State] != "" {
				return what + " and " + states[a.State] + " got the same state", out
			}
			states[a.State] = what
		case "callback":
			if s.used(o) { // the same code was presented twice
				continue
			}
			n, c := r.Cookie()
			if r.Kind != lib.KRedirect || n == "" || c == "deleted" {
				return what + " does not log in: " + r.String(), out
			}
			ck := n + "=" + c
			if ids[ck] != "" {
				return what + " got the session id of " + ids[ck], out
			}
			ids[ck] = o.user
			s.cookie[o.user] = ck
		case "request":
			i := s.own(o.user, r)
			lo := loggedOut[o.user]
			switch {
			case r.Kind == lib.KOK && i < 0:
				return fmt.Sprintf("%s is forwarded with %s", what, s.describe(r.OutAuth)), out
			case r.Kind == lib.KOK && lo != nil && lo.end <= o.start:
				return what + " passes although the logout had been answered before it was sent", out
			case r.Kind == lib.KOK:
				out = fmt.Sprint("set ", i)
				if s.lives[o.user][i] <= s.offset {
					return what + " is forwarded with expired tokens", out
				}
			case r.Kind != lib.KRedirect:
				return what + ": " + r.String(), out
			case lo == nil && !s.mayFail(o):
				return what + " is sent to the login although the session is alive", out
			}
		case "logout":
			if r.Kind != lib.KRedirect || !lib.Expired(r.SetCookie) {
				return what + ": " + r.String(), out
			}
		}
		outs = append(outs, o.kind+" "+out)
	}
	// afterwards
	for u, ck := range s.cookie {
		q := s.visit(u)
		q.Cookies = ck
		for round := 0; round < 2; round++ {
			r := s.w.Do(q)
			i := s.own(u, r)
			switch {
			case loggedOut[u] != nil && r.Kind == lib.KOK:
				return fmt.Sprintf("after the logout of %s its session cookie still passes", u), ""
			case loggedOut[u] != nil:
			case r.Kind == lib.KOK && i < 0:
				return fmt.Sprintf("afterwards a request of %s is forwarded with %s", u, s.describe(r.OutAuth)), ""
			case r.Kind != lib.KOK && !s.spent(u):
				return fmt.Sprintf("afterwards the session of %s is gone: %s", u, r), ""
			}
		}
	}
	// the states work, also with each other's login
	for i, o := range s.ops {
		if o.kind == "visit" && s.users[o.user] != nil && s.cookie[o.user] == "" {
			r := s.w.Do(s.callbackOf(o.user, o.res))
			n, c := r.Cookie()
			if r.Kind != lib.KRedirect || n == "" {
				return fmt.Sprintf("the login started by visit %d does not succeed: %s", i, r), ""
			}
			q := s.visit(o.user)
			q.Cookies = n + "=" + c
			if r = s.w.Do(q); s.own(o.user, r) < 0 && !s.spent(o.user) {
				return fmt.Sprintf("the session started by visit %d does not work: %s", i, r), ""
			}
		}
	}
	return "", strings.Join(outs, ", ")
}

// used tells whether another callback presented the same code.
func (s *site) used(o *op) bool {
	same, won := 0, 0
	for _, x := range s.ops {
		if x.kind == "callback" && x.user == o.user {
			same++
			if n, _ := x.res.Cookie(); x.res.Kind == lib.KRedirect && n != "" {
				won++
				n, c := x.res.Cookie()
				s.cookie[o.user] = n + "=" + c
			}
		}
	}
	return same > 1 && won == 1
}

// mayFail: of two concurrent refreshes with one single-use refresh token one can fail.
func (s *site) mayFail(o *op) bool {
	if s.spent(o.user) {
		return true
	}
	if s.lives[o.user][0] > s.offset {
		return false
	}
	n := 0
	for _, x := range s.ops {
		if x.kind == "request" && x.user == o.user {
			n++
		}
	}
	return n > 1
}

// spent: the session has expired and a refresh does not help.
func (s *site) spent(user string) bool {
	l := s.lives[user]
	return l[0] <= s.offset && (len(l) < 2 || l[1] <= s.offset)
}

func sessScenario(name string, quick, deep int, offset time.Duration, build func(s *site)) scenario {
	return scenario{name: name, quick: quick, deep: deep, offset: offset, setup: func() *run {
		s := newSite(offset)
		build(s)
		vclock.Set(0)
		return s.r
	}}
}

func c13register() {
	add := func(name string, quick, deep int, offset time.Duration, build func(s *site)) {
		reg("C13", sessScenario(name, quick, deep, offset, build))
	}
	in := func(s *site, user, client string, lives ...time.Duration) {
		s.user(user, client, lives...)
		s.login(user)
	}
	add("two logins", 3, 4, 0, func(s *site) {
		s.user("u", "c1", day)
		s.user("v", "c1", day)
		s.thread("callback", "u")
		s.thread("callback", "v")
	})
	add("two logins at two clients", 3, 4, 0, func(s *site) {
		s.user("u", "c1", day)
		s.user("v", "c2", day)
		s.thread("callback", "u")
		s.thread("callback", "v")
	})
	add("three logins", 2, 2, 0, func(s *site) {
		for _, u := range []string{"u", "v", "x"} {
			s.user(u, "c1", day)
			s.thread("callback", u)
		}
	})
	add("two visits", 4, 9, 0, func(s *site) {
		s.user("u", "c1", day)
		s.user("v", "c1", day)
		s.thread("visit", "u")
		s.thread("visit", "v")
	})
	add("three visits", 2, 3, 0, func(s *site) {
		for _, u := range []string{"u", "v", "x"} {
			s.user(u, "c1", day)
			s.thread("visit", u)
		}
	})
	add("visit and login", 3, 4, 0, func(s *site) {
		s.user("u", "c1", day)
		s.user("v", "c1", day)
		s.thread("visit", "u")
		s.thread("callback", "v")
	})
	add("login and requests of another session", 2, 3, 0, func(s *site) {
		in(s, "u", "c1", day)
		s.user("v", "c1", day)
		s.thread("callback", "v")
		s.thread("request", "u")
		s.thread("request", "u")
	})
	add("the same code twice", 3, 4, 0, func(s *site) {
		s.user("u", "c1", day)
		s.thread("callback", "u")
		s.thread("callback", "u")
	})
	add("requests of two sessions", 3, 5, 0, func(s *site) {
		in(s, "u", "c1", day)
		in(s, "v", "c1", day)
		s.thread("request", "u")
		s.thread("request", "v")
	})
	add("requests of three sessions", 2, 2, 0, func(s *site) {
		for _, u := range []string{"u", "v", "x"} {
			in(s, u, "c1", day)
			s.thread("request", u)
		}
	})
	add("refreshes of two sessions", 3, 4, 2*time.Hour, func(s *site) {
		in(s, "u", "c1", time.Hour, day)
		in(s, "v", "c1", time.Hour, day)
		s.thread("request", "u")
		s.thread("request", "v")
	})
	add("refreshes of two sessions of two clients", 2, 3, 2*time.Hour, func(s *site) {
		in(s, "u", "c1", time.Hour, day)
		in(s, "v", "c2", time.Hour, day)
		s.thread("request", "u")
		s.thread("request", "v")
	})
	add("two refreshes of one session", 3, 4, 2*time.Hour, func(s *site) {
		in(s, "u", "c1", time.Hour, day)
		s.thread("request", "u")
		s.thread("request", "u")
	})
	add("refresh, request of a live session and login", 2, 2, 2*time.Hour, func(s *site) {
		in(s, "u", "c1", time.Hour, day)
		s.user("v", "c1", day, day)
		s.login("v")
		s.user("x", "c1", day, day)
		s.thread("request", "u")
		s.thread("request", "v")
		s.thread("callback", "x")
	})
	add("refresh that ends a session and another refresh", 3, 4, 2*time.Hour, func(s *site) {
		in(s, "u", "c1", time.Hour)
		in(s, "v", "c1", time.Hour, day)
		s.thread("request", "u")
		s.thread("request", "v")
	})
	add("logout beside login and request of others", 2, 2, 0, func(s *site) {
		in(s, "u", "c1", day)
		in(s, "v", "c1", day)
		s.user("x", "c1", day)
		s.thread("logout", "u")
		s.thread("request", "v")
		s.thread("callback", "x")
	})
}

func c11register() {
	add := func(name string, quick, deep int, offset time.Duration, build func(s *site)) {
		reg("C11", sessScenario(name, quick, deep, offset, build))
	}
	in := func(s *site, user, client string, lives ...time.Duration) {
		s.user(user, client, lives...)
		s.login(user)
	}
	for _, x := range []struct {
		name   string
		offset time.Duration
		lives  []time.Duration
	}{{"live", 0, []time.Duration{day}}, {"refreshed", 2 * time.Hour, []time.Duration{time.Hour, day, day}}, {"refreshed twice", 2 * time.Hour, []time.Duration{time.Hour, time.Minute, day}}} {
		x := x
		add("logout and request of a session to be "+x.name, 4, 6, x.offset, func(s *site) {
			in(s, "u", "c1", x.lives...)
			s.thread("request", "u")
			s.thread("logout", "u")
		})
		add("logout and two requests of a session to be "+x.name, 2, 3, x.offset, func(s *site) {
			in(s, "u", "c1", x.lives...)
			s.thread("request", "u")
			s.thread("request", "u")
			s.thread("logout", "u")
		})
		add("two logouts and a request of a session to be "+x.name, 2, 3, x.offset, func(s *site) {
			in(s, "u", "c1", x.lives...)
			s.thread("request", "u")
			s.thread("logout", "u")
			s.thread("logout", "u")
		})
		add("logout beside another session of both to be "+x.name, 2, 3, x.offset, func(s *site) {
			in(s, "u", "c1", x.lives...)
			in(s, "v", "c1", x.lives...)
			s.thread("request", "u")
			s.thread("request", "v")
			s.thread("logout", "u")
		})
		add("logouts of two sessions to be "+x.name, 1, 2, x.offset, func(s *site) {
			in(s, "u", "c1", x.lives...)
			in(s, "v", "c2", x.lives...)
			s.thread("request", "u")
			s.thread("request", "v")
			s.thread("logout", "u")
			s.thread("logout", "v")
		})
	}
	add("logout and new login", 2, 4, 0, func(s *site) {
		in(s, "u", "c1", day)
		s.user("v", "c1", day)
		s.thread("logout", "u")
		s.thread("callback", "v")
	})
}
