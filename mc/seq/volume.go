//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// Long histories: families of histories that grow in one direction, followed to a length that no
// breadth-first search reaches. Every prefix length is a state of the family.

// manySessions: n users log in; every session stays usable, is renewed with its own refresh token and ends alone.
func manySessions(c *lib.Check) {
	if c.Stop() {
		return
	}
	n := c.Pick(1300, 12000)
	fail := func(f string, a ...interface{}) {
		c.Violation("many sessions", fmt.Sprintf("many sessions: "+f, a...), map[string]interface{}{"sessions": n}, nil)
	}
	s := newStage(stageCfg{})
	defer s.Close()
	type ses struct {
		name, val, user, svc string
		toks                 lib.TokenSet
		live                 bool
	}
	var l []*ses
	ids := map[string]bool{}
	ask := func(x *ses) lib.Res {
		return s.Do(lib.Req{NS: "ns", Svc: x.svc, Method: "GET", Path: "/p", Cookies: x.name + "=" + x.val})
	}
	check := func(x *ses, when string) bool {
		res := ask(x)
		c.Count("states", 1)
		c.Count("transitions", 1)
		switch {
		case res.Kind == lib.KPanic:
			fail("%s: panic %s", when, res.Err)
		case x.live && (res.Kind != lib.KOK || res.OutAuth != x.toks.Bearer()):
			fail("%s: the session of %s is answered %v, expected its own tokens", when, x.user, res)
		case !x.live && res.Kind == lib.KOK:
			fail("%s: the ended session of %s passes: %v", when, x.user, res)
		default:
			return true
		}
		return false
	}
	for i := 0; i < n; i++ {
		x := &ses{user: fmt.Sprintf("user%d", i), svc: []string{"s", "s2"}[i%2], live: true}
		var bad string
		x.name, x.val, bad = s.login(x.svc, x.user, []string{"cid", "other"}[i%2])
		if bad != "" {
			fail("login %d: %s", i, bad)
			return
		}
		if ids[x.val] {
			fail("login %d got a session id that exists already", i)
			return
		}
		ids[x.val] = true
		x.toks = s.Last()
		l = append(l, x)
		if !check(l[0], fmt.Sprintf("after %d logins", i+1)) || !check(l[i/2], fmt.Sprintf("after %d logins", i+1)) {
			return
		}
	}
	for _, x := range l {
		if !check(x, "after all logins") {
			return
		}
	}
	if c.Prop != "C13" {
		for i, x := range l {
			if i%3 != 0 {
				continue
			}
			if res := s.Do(lib.Req{NS: "ns", Svc: x.svc, Method: "GET", Path: "/p/oidc/logout", Cookies: x.name + "=" + x.val}); res.Kind != lib.KRedirect {
				fail("logout of %s is answered %v", x.user, res)
				return
			}
			x.live = false
		}
		for _, x := range l {
			if !check(x, "after every third logout") {
				return
			}
		}
	}
	// everyone is renewed, several times
	for round := 1; round <= 3; round++ {
		s.Offset += s.Life + time.Minute
		for _, x := range l {
			served := s.Served
			res := ask(x)
			if !x.live {
				if res.Kind == lib.KOK {
					fail("the ended session of %s passes after expiry: %v", x.user, res)
					return
				}
				continue
			}
			if res.Kind != lib.KOK || s.Served != served+1 || res.OutAuth != s.Last().Bearer() {
				fail("round %d: the expired session of %s is answered %v with %d token requests", round, x.user, res, s.Served-served)
				return
			}
			if g := s.Refresh[s.Last().Refresh]; g == nil || g.User != x.user {
				fail("round %d: the session of %s was renewed with another session's refresh token", round, x.user)
				return
			}
			x.toks = s.Last()
		}
		for _, x := range l {
			if !check(x, fmt.Sprintf("after round %d of renewals", round)) {
				return
			}
		}
	}
	c.Count("long_history_sessions", n)
	c.Count("traces_validated_against_impl", 1)
}

// pendingLogins: one user starts n logins before completing one; the state cookie of each completes its own.
func pendingLogins(c *lib.Check) {
	n := c.Pick(150, 1500)
	s := newStage(stageCfg{})
	defer s.Close()
	type pend struct {
		jar   *lib.Browser
		state string
		redir string
	}
	var l []pend
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		b := lib.NewBrowser()
		res := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: fmt.Sprintf("/p%d", i)})
		a, err := lib.ParseAuth(res.Location)
		_, v := res.Cookie()
		if res.Kind != lib.KRedirect || err != nil || seen[a.State] || seen[v] {
			c.Violation("pending logins", fmt.Sprintf("login %d is answered %v (state seen before: %v)", i, res, seen[a.State]), i, nil)
			return
		}
		seen[a.State], seen[v] = true, true
		b.Apply(res)
		l = append(l, pend{b, a.State, a.Redirect})
	}
	for i := range l {
		for _, other := range []int{(i + 1) % n, (i + n/2) % n, i} { // foreign states first
			c.Count("states", 1)
			c.Count("transitions", 1)
			p := fmt.Sprintf("/p%d", i)
			res := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: p + "/oidc/callback", Cookies: l[i].jar.Cookies(), Code: s.Code("u", "cid", l[i].redir), State: l[other].state})
			done := res.Kind == lib.KRedirect && res.Location == "https://app.test"+p
			if done != (other == i) {
				c.Violation("pending logins", fmt.Sprintf("callback of login %d with the state of login %d is answered %v", i, other, res), i, nil)
				return
			}
		}
	}
	c.Count("long_history_pending", n)
	c.Count("traces_validated_against_impl", 1)
}

// manyPolicies: n policies with one to four entries each at several services are created, half of them updated, deleted
// and re-created; after each phase every request is compared with the reference.
func manyPolicies(c *lib.Check) {
	if c.Stop() {
		return
	}
	n := c.Pick(160, 900)
	polInit()
	var rq []lib.Req
	mk := func(i, version int) (slot, spec) {
		svc := fmt.Sprintf("v%d", i%3)
		tag := func(k int) string { return "tag" + letters(i*8+version*4+k) }
		p := fmt.Sprintf("/q%d", i)
		sp := spec{ent{svc, p, "", "ALL", "jwt", tag(0)}, ent{svc, "", p + "/in", []string{"GET", "POST", "ALL"}[i%3], "jwt", tag(1)}}
		if version == 1 {
			sp = spec{ent{svc, p, "", "GET", "jwt", tag(0)}, ent{svc, p + "/x", "", "ALL", "jwt", tag(1)}, ent{fmt.Sprintf("v%d", (i+1)%3), "", p, "ALL", "jwt", tag(2)}}
		}
		return slot{fmt.Sprintf("ns%d", i%2), fmt.Sprintf("pol%d", i)}, sp
	}
	sc := &scenario{name: "many policies", nss: []string{"ns0", "ns1"}}
	w := sc.world()
	live := map[slot]spec{}
	for i := 0; i < n; i++ {
		for v := 0; v < 3; v++ {
			for _, p := range []string{"", "/x", "/in", "/in/y"} {
				if (i+v+len(p))%2 == 0 || v == i%3 {
					rq = append(rq, lib.Req{NS: fmt.Sprintf("ns%d", i%2), Svc: fmt.Sprintf("v%d", v), Method: []string{"GET", "POST"}[(i+v)%2], Path: fmt.Sprintf("/q%d%s", i, p)})
				}
			}
		}
	}
	judge := func(phase string) bool {
		for _, r := range rq {
			got := sc.ask(w, r)
			c.Count("requests_evaluated", 1)
			if bad := sc.oracle("C02", live, r, got, nil, 0); bad != "" {
				c.Violation("many policies", fmt.Sprintf("many policies, %s: request %v: %s", phase, r, bad), map[string]interface{}{"policies": n, "phase": phase}, nil)
				return false
			}
		}
		c.Count("states", 1)
		c.Count("traces_validated_against_impl", 1)
		return true
	}
	set := func(i, v int) {
		s, sp := mk(i, v)
		w.Set(s.object(sp))
		live[s] = sp
		c.Count("transitions", 1)
	}
	del := func(i int) {
		s, _ := mk(i, 0)
		w.Del(v1.POLICY, s.ns, s.name)
		delete(live, s)
		c.Count("transitions", 1)
	}
	phases := []struct {
		name string
		f    func(i int)
	}{
		{"created", func(i int) { set(i, 0) }},
		{"every second updated", func(i int) {
			if i%2 == 0 {
				set(i, 1)
			}
		}},
		{"every third deleted", func(i int) {
			if i%3 == 0 {
				del(i)
			}
		}},
		{"every sixth created again", func(i int) {
			if i%6 == 0 {
				set(i, 1)
			}
		}},
		{"updated back", func(i int) {
			if i%2 == 0 && i%3 != 0 {
				set(i, 0)
			}
		}},
		{"all deleted", func(i int) { del(n - 1 - i) }},
	}
	for _, ph := range phases {
		for i := 0; i < n; i++ {
			ph.f(i)
		}
		if !judge(ph.name) {
			return
		}
	}
	// one policy with n entries
	big := spec{}
	s := slot{"ns0", "big"}
	for i := 0; i < n; i++ {
		_, sp := mk(i, 0)
		big = append(big, sp...)
	}
	for _, k := range []int{len(big), len(big) / 2, len(big), 1, 0} {
		w.Set(s.object(big[:k]))
		live = map[slot]spec{s: big[:k]}
		if !judge(fmt.Sprintf("one policy with %d entries", k)) {
			return
		}
	}
	c.Count("long_history_policies", n)
}

// letters writes a number with letters only, so that no tag is part of another one.
func letters(i int) string {
	s := ""
	for k := 0; k < 4; k++ {
		s = string(rune('a'+i%26)) + s
		i /= 26
	}
	return s
}

// manyConfigs: n configurations of both kinds exist at once; each policy uses its own.
func manyConfigs(c *lib.Check) {
	if c.Stop() {
		return
	}
	n := c.Pick(120, 600)
	cfgInit()
	w := lib.NewWorld(polKube, polWeb)
	idps := []*lib.IdP{cfgA, cfgB}
	jwt, oidc := map[int]int{}, map[int]string{}
	for i := 0; i < n; i++ {
		w.Set(lib.Policy("ns1", fmt.Sprintf("j%d", i), fmt.Sprintf("j%d", i), lib.Path("", "/", "ALL", lib.Pol("jwt", fmt.Sprintf("c%d", i)))))
		w.Set(lib.Policy("ns1", fmt.Sprintf("o%d", i), fmt.Sprintf("o%d", i), lib.Path("", "/", "ALL", lib.Pol("oidc", fmt.Sprintf("c%d", i)))))
	}
	judge := func(phase string) bool {
		c.Count("states", 1)
		c.Count("traces_validated_against_impl", 1)
		for i := 0; i < n; i++ {
			for k := 0; k < 2; k++ {
				res := w.Do(lib.Req{NS: "ns1", Svc: fmt.Sprintf("j%d", i), Method: "GET", Path: "/x", Auth: "Bearer " + cfgToken[string(rune('a'+k))]})
				want := lib.KError
				if v, ok := jwt[i]; ok {
					want = map[bool]string{true: lib.KOK, false: lib.KDeny}[v == k]
				}
				if res.Kind != want {
					c.Violation("many configurations", fmt.Sprintf("many configurations, %s: request of service j%d with a token of provider %d is answered %v, expected %s", phase, i, k, res, want), nil, nil)
					return false
				}
			}
			res := w.Do(lib.Req{NS: "ns1", Svc: fmt.Sprintf("o%d", i), Method: "GET", Path: "/x"})
			a, _ := lib.ParseAuth(res.Location)
			if cl, ok := oidc[i]; ok && (res.Kind != lib.KRedirect || a.ClientID != cl) || !ok && res.Kind != lib.KError {
				c.Violation("many configurations", fmt.Sprintf("many configurations, %s: request of service o%d is answered %v, expected client %q", phase, i, res, cl), nil, nil)
				return false
			}
		}
		return true
	}
	setJ := func(i, k int) {
		w.Set(lib.JwtConfig("ns1", fmt.Sprintf("c%d", i), idps[k].URL("jwks")))
		jwt[i] = k
		c.Count("transitions", 1)
	}
	setO := func(i int, cl string) {
		w.Set(lib.OidcConfig("ns1", fmt.Sprintf("c%d", i), cl, idps[i%2].URL("disc")))
		oidc[i] = cl
		c.Count("transitions", 1)
	}
	for i := 0; i < n; i++ {
		setJ(i, i%2)
		setO(i, fmt.Sprintf("client%d", i))
	}
	if !judge("created") {
		return
	}
	for i := 0; i < n; i += 3 {
		setJ(i, 1-i%2)
		setO(i, fmt.Sprintf("second%d", i))
	}
	if !judge("every third updated") {
		return
	}
	for i := 0; i < n; i += 2 {
		w.Del(v1.JWTCONFIG, "ns1", fmt.Sprintf("c%d", i))
		delete(jwt, i)
	}
	for i := 0; i < n; i += 5 {
		w.Del(v1.OIDCCONFIG, "ns1", fmt.Sprintf("c%d", i))
		delete(oidc, i)
	}
	if !judge("some deleted") {
		return
	}
	c.Count("long_history_configs", n)
}

// manyRules: lists of rules, values and claim elements in which only the one at a given place decides.
func manyRules(c *lib.Check) {
	polInit()
	l := lib.NewLab()
	defer l.Close()
	l.W = lib.NewWorld(polKube, polWeb)
	l.W.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
	sizes := []int{1, 2, 3, 4, 5, 8, 11, 16, 17, 33, 70}
	maxN := c.Pick(33, 70)
	worlds := make(chan *lib.World, 16)
	for i := 0; i < 16; i++ {
		w := lib.NewWorld(polKube, polWeb)
		w.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
		worlds <- w
	}
	what := []string{"rules", "rules on the ID token", "values of an ALL rule", "values of an ANY rule", "values of a NOT rule", "array elements", "words of a string", "nesting"}
	product(c, "long lists", []int{len(sizes), maxN, len(what), 2}, func(i []int) (string, interface{}, string) {
		n, at, hold := sizes[i[0]], i[1], i[3] == 1
		if at >= n || n > maxN {
			return "", nil, "skip"
		}
		show := map[string]interface{}{"list of": what[i[2]], "length": n, "deciding element": at, "holds": hold}
		val := func(k int) string { return "v" + letters(k) }
		var vals []string
		for k := 0; k < n; k++ {
			vals = append(vals, val(k))
		}
		std := lib.Std("u", "x")
		acc, id := std, std
		var rules []v1.Rule
		want := hold
		switch i[2] {
		case 0, 1:
			src := ""
			for k := 0; k < n; k++ {
				v := "u"
				if k == at && !hold {
					v = "other"
				}
				if i[2] == 1 {
					src = "id_token"
				}
				rules = append(rules, v1.Rule{Claim: "sub", Match: []string{"ALL", "ANY"}[k%2], Values: []string{v}, Source: src})
			}
		case 2: // the claim has all values but the one at the place
			var cl []string
			for k := 0; k < n; k++ {
				if k != at || hold {
					cl = append(cl, val(k))
				}
			}
			acc = std.With("c", append(cl, "more"))
			rules = []v1.Rule{{Claim: "c", Match: "ALL", Values: vals}}
		case 3:
			cl := "none"
			if hold {
				cl = val(at)
			}
			acc = std.With("c", cl)
			rules = []v1.Rule{{Claim: "c", Match: "ANY", Values: vals}}
		case 4:
			cl := "none"
			if !hold {
				cl = val(at)
			}
			acc = std.With("c", []string{"a", cl})
			rules = []v1.Rule{{Claim: "c", Match: "NOT", Values: vals}}
		case 5, 6:
			w := val(at)
			if !hold {
				w = "none"
			}
			if i[2] == 5 {
				acc = std.With("c", vals)
			} else {
				acc = std.With("c", strings.Join(vals, " "))
			}
			rules = []v1.Rule{{Claim: "c", Match: []string{"ALL", "ANY"}[at%2], Values: []string{w}}}
		case 7:
			if n > 20 {
				return "", nil, "skip"
			}
			var v interface{} = "x"
			name := ""
			for k := n - 1; k >= 0; k-- {
				v = map[string]interface{}{val(k): v, "other": "y"}
			}
			for k := 0; k < n; k++ {
				s := val(k)
				if k == at && !hold {
					s = "missing"
				}
				name += "." + s
			}
			acc = std.With("top", v)
			rules = []v1.Rule{{Claim: "top" + name, Match: "ANY", Values: []string{"x"}}}
		}
		w := <-worlds
		defer func() { worlds <- w }()
		w.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j", rules...))))
		res := w.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: "Bearer " + lib.JWT("a", acc) + " " + lib.JWT("a", id)})
		if want && res.Kind != lib.KOK || !want && res.Kind != lib.KDeny {
			return fmt.Sprintf("answered %v, expected pass=%v", res, want), show, ""
		}
		c.Count("distinct_nontrivial", 1)
		return "", show, res.Kind
	})
}

// manyKeys: key sets of n keys, looked up at every place, then replaced by sets of another size.
func manyKeys(c *lib.Check) {
	polInit()
	sizes := []int{1, 2, 3, 5, 9, 17, 40, 101}
	product(c, "many keys", []int{len(sizes), len(sizes), 2}, func(i []int) (string, interface{}, string) {
		n, n2 := sizes[i[0]], sizes[i[1]]
		show := map[string]interface{}{"keys": n, "keys after rotation": n2, "old keys": []string{"withdrawn", "kept"}[i[2]]}
		l := lib.NewLab()
		defer l.Close()
		names := []string{"a", "b", "c"}
		set := func(gen, n int) (ks []lib.PubKey) {
			for k := 0; k < n; k++ {
				ks = append(ks, lib.PubKey{Kid: fmt.Sprintf("g%d-%d", gen, k), Key: lib.Key(names[(k+gen)%3])})
			}
			return
		}
		l.SetKeys(set(0, n)...)
		l.W = lib.NewWorld(polKube, polWeb)
		l.W.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
		l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		ask := func(gen, k, off int) lib.Res {
			tok := lib.Sign(fmt.Sprintf(`{"alg":"RS256","kid":"g%d-%d"}`, gen, k), lib.JSON(lib.Std("u", "x")), "RS256", lib.Key(names[(k+gen+off)%3]))
			return l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x", Auth: "Bearer " + tok})
		}
		look := func(gen, n int) string {
			for k := 0; k < n; k++ {
				if res := ask(gen, k, 0); res.Kind != lib.KOK {
					return fmt.Sprintf("a token of published key %d of set %d is answered %v", k, gen, res)
				}
				if res := ask(gen, k, 1); res.Kind != lib.KDeny {
					return fmt.Sprintf("a token of another key under kid %d of set %d is answered %v", k, gen, res)
				}
			}
			return ""
		}
		if bad := look(0, n); bad != "" {
			return bad, show, ""
		}
		next := set(1, n2)
		if i[2] == 1 {
			next = append(set(0, n), next...)
		}
		l.SetKeys(next...)
		if bad := look(1, n2); bad != "" {
			return bad, show, ""
		}
		if i[2] == 1 {
			if bad := look(0, n); bad != "" {
				return bad, show, ""
			}
		}
		if res := ask(2, 0, 0); res.Kind != lib.KDeny {
			return fmt.Sprintf("a token with an unknown kid is answered %v", res), show, ""
		}
		return "", show, "found"
	})
}
