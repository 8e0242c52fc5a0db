//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// policyMix: one session used under the rules of several policies and services, in every order, while its tokens run
// out one after the other and policies change: each request is judged by the rules of its own policy on the tokens as they are now.
func policyMix(c *lib.Check) {
	one := func(claim, match, source string, values ...string) v1.Rule { return rule(claim, match, source, values...)[0] }
	type pol struct {
		svc, path string
		rules     []v1.Rule
		ok        bool
	}
	pols := []pol{
		{"s", "/d", nil, true}, // the default rule
		{"s", "/two", []v1.Rule{one("sub", "ALL", "id_token", "u"), one("role", "ANY", "access_token", "admin", "user")}, true},
		{"s", "/no", []v1.Rule{one("sub", "ALL", "id_token", "u"), one("role", "ALL", "access_token", "admin")}, false},
		{"s", "/noid", []v1.Rule{one("sub", "ALL", "access_token", "u"), one("level", "ANY", "id_token", "2"), one("sub", "ANY", "id_token", "u")}, false},
		{"t", "/two", []v1.Rule{one("level", "NOT", "id_token", "2"), one("level", "ALL", "id_token", "1"), one("role", "NOT", "access_token", "admin")}, true},
		{"t", "/no", []v1.Rule{one("sub", "ALL", "id_token", "u"), one("role", "ANY", "access_token", "user"), one("level", "NOT", "id_token", "1")}, false},
	}
	lives := [][2]int{{60, 60}, {60, 30}, {30, 60}} // minutes: access, ID token
	const nReq = 6 // requests, then the other events
	evs := []string{"", "", "", "", "", "", "35 minutes pass", "the rules of /d and /no of s change places"}
	depth := 4
	if c.Thorough() {
		depth = 6
	}
	dims := []int{len(lives), 3}
	for k := 0; k < depth; k++ {
		dims = append(dims, len(evs))
	}
	product(c, "one session under several policies", dims, func(i []int) (string, interface{}, string) {
		kind := []string{"no refresh token", "refresh token", "opaque access token"}[i[1]]
		show := []string{fmt.Sprintf("access token valid %d min, ID token %d min, %s", lives[i[0]][0], lives[i[0]][1], kind)}
		s := newStage(stageCfg{})
		defer s.Close()
		s.NoRefresh = i[1] != 1
		opaque := i[1] == 2
		s.Shape = func(k string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			cl := lib.Std(g.User, g.Client).With("jti", fmt.Sprint(s.ID, len(s.Minted), k))
			t.Access = lib.JWT("a", cl.With("typ", "access").With("role", "user").With("exp", lib.In(s.Offset+time.Duration(lives[i[0]][0])*time.Minute)))
			t.ID = lib.JWT("a", cl.With("typ", "id").With("level", 1).With("exp", lib.In(s.Offset+time.Duration(lives[i[0]][1])*time.Minute)))
			if opaque {
				t.Access = fmt.Sprintf("opaque-%s-%d-zq", s.ID, len(s.Minted))
			}
			s.Minted[len(s.Minted)-1] = t
			return t.Body()
		}
		if opaque { // no rule on the access token can hold: only ID token rules are used
			s.UserInfo = func(*lib.Rec) lib.Answer { return lib.OK(lib.JSON(lib.Claims{"sub": "u"})) }
		}
		rulesOf := make([][]v1.Rule, len(pols))
		okOf := make([]bool, len(pols))
		for k, p := range pols {
			rulesOf[k], okOf[k] = p.rules, p.ok
			if opaque {
				rulesOf[k], okOf[k] = nil, true
				for _, r := range p.rules {
					if r.Source == "id_token" {
						rulesOf[k] = append(rulesOf[k], r)
						okOf[k] = okOf[k] && !(strings.Contains(fmt.Sprint(r), "[2]") && r.Match == "ANY") && !(r.Claim == "level" && r.Match == "NOT" && r.Values[0] == "1")
					}
				}
			}
			if rulesOf[k] == nil { // the default rule names the access token, whose audience an opaque one lacks
				rulesOf[k] = map[bool][]v1.Rule{false: nil, true: {one("sub", "ALL", "id_token", "u")}}[opaque]
			}
		}
		put := func() {
			byS := map[string][]v1.PathConfig{}
			for k, p := range pols {
				byS[p.svc] = append(byS[p.svc], lib.Path(p.path, "", "ALL", lib.Pol("oidc", "o", rulesOf[k]...)))
			}
			s.W.Set(lib.Policy("ns", "p", "s", byS["s"]...))
			s.W.Set(lib.Policy("ns", "pt", "t", byS["t"]...))
		}
		s.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o", rule("sub", "ALL", "id_token", "u")...))))
		n, v, bad := s.login("s", "u", "cid")
		if bad != "" {
			return bad, show, ""
		}
		put()
		now, start, alive := 0, 0, true // minutes
		last := s.Last()
		for _, e := range i[2:] {
			if e == nReq {
				s.Offset += 35 * time.Minute
				now += 35
				show = append(show, evs[e])
				continue
			}
			if e == nReq+1 {
				rulesOf[0], rulesOf[2] = rulesOf[2], rulesOf[0]
				okOf[0], okOf[2] = okOf[2], okOf[0]
				put()
				show = append(show, evs[e])
				continue
			}
			p := pols[e]
			show = append(show, "request "+p.svc+p.path)
			before := len(s.Minted)
			res := s.Do(lib.Req{NS: "ns", Svc: p.svc, Method: "GET", Path: p.path, Cookies: n + "=" + v})
			expired := now-start >= lives[i[0]][1] || !opaque && now-start >= lives[i[0]][0]
			if len(s.Minted) > before {
				last = s.Last()
			}
			may := okOf[e] && alive && !(expired && s.NoRefresh)
			if res.Kind == lib.KPanic {
				return "panic: " + res.Err, show, ""
			}
			if !okOf[e] && res.Kind == lib.KOK {
				return fmt.Sprintf("a request whose tokens violate a rule of its policy passes: %v", res), show, ""
			}
			if expired && s.NoRefresh && res.Kind == lib.KOK {
				return fmt.Sprintf("a request with an expired token passes: %v", res), show, ""
			}
			if may && (res.Kind != lib.KOK || res.OutAuth != last.Bearer()) {
				return fmt.Sprintf("a request whose tokens satisfy every rule of its policy is answered %v", res), show, ""
			}
			if !may {
				alive = false // whether a session found invalid once has ended is not asserted: only what must not pass from here on
			} else if expired {
				start = now
			}
		}
		return "", show, map[bool]string{true: "passes throughout", false: "rejected"}[alive]
	})
}
