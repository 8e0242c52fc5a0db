//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// ---------------------------------------------------------------- C14

// kubeFault fails the first calls of a kind.
type kubeFault struct {
	fails map[string]int
	used  map[string]*int
}

//go:norace
func (f *kubeFault) hit(verb string) bool {
	n := f.used[verb]
	if n == nil {
		return false
	}
	*n++
	return *n <= f.fails[verb]
}

//go:norace
func (f *kubeFault) reset() {
	for _, n := range f.used {
		*n = 0
	}
}

// keySite is adapter instances sharing a cluster.
type keySite struct {
	k    *lib.Kube
	p    *prov
	f    *kubeFault
	ws   []*lib.World
	r    *run
	list []*op
	inst []int
}

// newKeySite: fails are the calls that fail while the instances start, later those that fail when the threads run.
func newKeySite(instances int, starting, running map[string]int, secret bool) *keySite {
	s := &keySite{k: lib.NewKube(), p: newProv("keys", lib.K("a")), r: &run{}}
	for i := 0; i < 16; i++ {
		s.p.user(fmt.Sprint("u", i), "c1", day)
	}
	if secret {
		s.k.PutCookieKeys(3)
	}
	mk := func(m map[string]int) *kubeFault {
		f := &kubeFault{fails: m, used: map[string]*int{}}
		for v := range m {
			f.used[v] = new(int)
		}
		return f
	}
	s.f = mk(starting)
	s.k.Fault = func(verb, key string) error {
		if s.f.hit(verb) {
			return lib.ErrKube
		}
		return nil
	}
	for i := 0; i < instances; i++ {
		s.f.reset()
		s.ws = append(s.ws, nil)
		s.start(i)
	}
	s.f = mk(running)
	s.r.check = s.check
	return s
}

func (s *keySite) start(i int) {
	w := lib.NewWorld(s.k, nil)
	w.Set(lib.OidcConfig("n", "o1", "c1", s.p.url("disc")))
	w.Set(lib.Policy("n", "p1", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o1"))))
	s.ws[i] = w
}

// visit adds a thread that visits instance i.
func (s *keySite) visit(i int) {
	o := &op{newCall(lib.Req{NS: "n", Svc: "s", Path: "/page", Method: "GET"}), "visit", fmt.Sprint("u", len(s.list))}
	s.list = append(s.list, o)
	s.inst = append(s.inst, i)
	s.r.thread(fmt.Sprintf("visit at instance %d", i), func() { o.do(s.ws[i].Adapter) })
}

// boot adds a thread that starts a new instance and visits it.
func (s *keySite) boot() {
	i := len(s.ws)
	s.ws = append(s.ws, nil)
	o := &op{newCall(lib.Req{NS: "n", Svc: "s", Path: "/page", Method: "GET"}), "visit", fmt.Sprint("u", len(s.list))}
	s.list = append(s.list, o)
	s.inst = append(s.inst, i)
	s.r.thread(fmt.Sprintf("start of instance %d and visit", i), func() {
		s.start(i)
		o.do(s.ws[i].Adapter)
	})
}

func (s *keySite) check() (string, string) {
	faults := 0
	for _, n := range s.f.fails {
		faults += n
	}
	s.f = &kubeFault{} // everything works
	secret := func() string {
		v := s.k.Secrets[lib.CookieSecret]
		if v == nil {
			return ""
		}
		return fmt.Sprintf("%x %x", v.Data["HASH_KEY"], v.Data["BLOCK_KEY"])
	}
	before := secret()
	var outs []string
	type login struct {
		req lib.Req
		by  int
	}
	var ls []login
	add := func(i int, user string, v lib.Res) string {
		a, err := lib.ParseAuth(v.Location)
		n, c := v.Cookie()
		if v.Kind != lib.KRedirect || err != nil || n == "" {
			return v.String()
		}
		ls = append(ls, login{lib.Req{NS: "n", Svc: "s", Path: "/page/oidc/callback", Method: "GET", Code: "code-" + user, State: a.State, Cookies: n + "=" + c}, i})
		return ""
	}
	for i, o := range s.list {
		r := o.classify()
		outs = append(outs, r.Kind)
		if e := add(s.inst[i], o.user, r); e != "" && (r.Kind != lib.KError || faults == 0) {
			return fmt.Sprintf("visit %d at instance %d: %s", i, s.inst[i], e), ""
		}
	}
	for i := range s.ws {
		u := fmt.Sprint("u", 10+i)
		if e := add(i, u, s.ws[i].Do(lib.Req{NS: "n", Svc: "s", Path: "/page", Method: "GET"})); e != "" {
			return fmt.Sprintf("after Kubernetes has recovered a visit at instance %d is answered %s", i, e), ""
		}
	}
	// every state cookie is accepted by every instance
	for n, l := range ls {
		i := (l.by + n) % len(s.ws)
		r := s.ws[i].Do(l.req)
		if name, _ := r.Cookie(); r.Kind != lib.KRedirect || name == "" {
			return fmt.Sprintf("instance %d does not accept the state cookie of instance %d: %s", i, l.by, r), ""
		}
	}
	if after := secret(); after == "" || (before != "" && after != before) {
		return fmt.Sprintf("the secret changed from %q to %q", before, after), ""
	}
	if s.k.Secrets[lib.CookieSecret] != nil {
		h, b := s.k.Secrets[lib.CookieSecret].Data["HASH_KEY"], s.k.Secrets[lib.CookieSecret].Data["BLOCK_KEY"]
		if len(h) != 32 || len(b) != 16 {
			return fmt.Sprintf("key sizes %d and %d", len(h), len(b)), ""
		}
	}
	return "", strings.Join(outs, ", ")
}

func c14register() {
	add := func(name string, quick, deep int, f func() *keySite) {
		reg("C14", scenario{name: name, quick: quick, deep: deep, setup: func() *run { return f().r }})
	}
	all := map[string]int{"get": 99, "create": 99}
	for _, secret := range []bool{false, true} {
		secret := secret
		sfx := " (no secret)"
		if secret {
			sfx = " (secret exists)"
		}
		add("two first uses after a failed start"+sfx, 2, 5, func() *keySite {
			s := newKeySite(1, all, nil, secret)
			s.visit(0)
			s.visit(0)
			return s
		})
		add("three first uses after a failed start"+sfx, 1, 2, func() *keySite {
			s := newKeySite(1, all, nil, secret)
			s.visit(0)
			s.visit(0)
			s.visit(0)
			return s
		})
		add("two first uses, Kubernetes still failing at first"+sfx, 2, 4, func() *keySite {
			s := newKeySite(1, all, map[string]int{"get": 2, "create": 2}, secret)
			s.visit(0)
			s.visit(0)
			return s
		})
		add("two first uses, the first failing altogether"+sfx, 2, 4, func() *keySite {
			s := newKeySite(1, all, map[string]int{"get": 3, "create": 3}, secret)
			s.visit(0)
			s.visit(0)
			return s
		})
		add("first uses at two instances after failed starts"+sfx, 2, 3, func() *keySite {
			s := newKeySite(2, all, nil, secret)
			s.visit(0)
			s.visit(1)
			return s
		})
		add("two instances start"+sfx, 2, 3, func() *keySite {
			s := newKeySite(0, nil, nil, secret)
			s.boot()
			s.boot()
			return s
		})
		add("an instance starts beside first uses of another"+sfx, 1, 2, func() *keySite {
			s := newKeySite(1, all, nil, secret)
			s.boot()
			s.visit(0)
			return s
		})
		if !secret {
			add("two first uses, creation succeeds but reads fail at first"+sfx, 2, 4, func() *keySite {
				s := newKeySite(2, all, map[string]int{"get": 4}, secret)
				s.visit(0)
				s.visit(1)
				return s
			})
		}
	}
}

// ---------------------------------------------------------------- C15

func c15register() {
	tokens := map[string]string{}
	for _, k := range []string{"a", "b", "z"} {
		tokens[k] = lib.JWT(k, lib.Std("u", "x"))
	}
	forged := strings.Replace(tokens["z"], strings.Split(tokens["z"], ".")[0], strings.Split(tokens["b"], ".")[0], 1) // kid b, signed with z
	tokens["forged b"] = forged
	type kase struct {
		published   string // key set before the threads: "ab"
		known       string // what the key set was when it was fetched; "" the fetch failed
		fail        []lib.Answer
		asks        []string
		publisher   bool // a thread publishes b meanwhile
		quick, deep int
	}
	setOf := func(s string) string {
		var l []lib.PubKey
		for _, c := range s {
			l = append(l, lib.K(string(c)))
		}
		return lib.JWKS(l)
	}
	add := func(name string, k kase) {
		reg("C15", scenario{name: name, quick: k.quick, deep: k.deep, setup: func() *run {
			p := newProv("ks", lib.K("a"))
			p.jwks = []string{setOf(k.known), setOf(k.published), setOf("ab")}
			if k.known == "" {
				p.plan["jwks"] = append(p.plan["jwks"], lib.Answer{Err: lib.ErrNet}, lib.Answer{Err: lib.ErrNet}, lib.Answer{Err: lib.ErrNet}, lib.Answer{Err: lib.ErrNet}, lib.Answer{Err: lib.ErrNet}, lib.Answer{Err: lib.ErrNet})
			}
			w := lib.NewWorld(lib.NewKube(), apiOnly{})
			w.Set(lib.JwtConfig("n", "j", p.url("jwks")))
			w.Set(lib.Policy("n", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
			p.plan["jwks"] = nil
			p.count = [8]int{}
			if len(k.fail) > 0 {
				p.plan["jwks"] = k.fail
			}
			p.publish(1)
			p.logged = 0
			r := &run{}
			var calls []*call
			for _, a := range k.asks {
				c := newCall(lib.Req{NS: "n", Svc: "s", Path: "/x", Method: "GET", Auth: "Bearer " + tokens[a]})
				calls = append(calls, c)
				r.thread("token "+a, func() { c.do(w.Adapter) })
			}
			pub := &mark{}
			if k.publisher {
				r.thread("publisher", func() {
					pub.do(func() { p.publish(2) })
				})
			}
			r.check = func() (string, string) {
				var outs []string
				for i, a := range k.asks {
					got := calls[i].classify()
					outs = append(outs, a+" "+got.Kind)
					cached := strings.Contains(k.known, a)
					there := strings.Contains(k.published, a)
					switch {
					case got.Kind != lib.KOK && got.Kind != lib.KDeny:
						return fmt.Sprintf("token %s: %s", a, got), ""
					case a == "z" || strings.HasPrefix(a, "forged"):
						if got.Kind == lib.KOK {
							return fmt.Sprintf("token %s passes", a), ""
						}
					case cached && got.Kind != lib.KOK:
						return fmt.Sprintf("token %s, whose key was already known, is rejected: %s", a, got), ""
					case there && len(k.fail) == 0 && got.Kind != lib.KOK:
						return fmt.Sprintf("token %s, whose key is published, is rejected: %s", a, got), ""
					case !there && !k.publisher && !cached && got.Kind == lib.KOK:
						return fmt.Sprintf("token %s passes although its key is not published", a), ""
					case got.Kind != lib.KOK && len(k.fail) > 0 && there && !p.failedDuring(calls[i]):
						return fmt.Sprintf("token %s, whose key is published, is rejected although no fetch failed: %s", a, got), ""
					}
				}
				p.plan["jwks"] = nil
				final := k.published
				if k.publisher {
					final = "ab"
				}
				for _, a := range []string{"a", "b", "z", "forged b"} {
					got := lib.DoMsg(w.Adapter, lib.Req{NS: "n", Svc: "s", Path: "/x", Method: "GET", Auth: "Bearer " + tokens[a]}.Msg())
					if strings.Contains(k.known, a) && !strings.Contains(final, a) {
						continue // was known, is not published any more
					}
					want := len(a) == 1 && strings.Contains(final, a)
					if want != (got.Kind == lib.KOK) {
						return fmt.Sprintf("afterwards token %s is answered %s", a, got), ""
					}
				}
				return "", strings.Join(outs, ", ")
			}
			return r
		}})
	}
	bad := lib.Answer{Status: 500, Body: "{}"}
	junk := lib.OK(`{"keys":7}`)
	empty := lib.OK(`{}`)
	add("new key twice", kase{published: "ab", known: "a", asks: []string{"b", "b"}, quick: 3, deep: 9})
	add("known and new key", kase{published: "ab", known: "a", asks: []string{"a", "b"}, quick: 3, deep: 9})
	add("new key, known key, new key", kase{published: "ab", known: "a", asks: []string{"b", "a", "b"}, quick: 2, deep: 3})
	add("three times a new key", kase{published: "ab", known: "a", asks: []string{"b", "b", "b"}, quick: 2, deep: 3})
	add("four times a new key", kase{published: "ab", known: "a", asks: []string{"b", "b", "b", "b"}, quick: -1, deep: 1})
	add("two new keys", kase{published: "ab", known: "", asks: []string{"a", "b"}, quick: 3, deep: 9})
	add("unknown and new key", kase{published: "ab", known: "a", asks: []string{"z", "b"}, quick: 3, deep: 9})
	add("forged and genuine new key", kase{published: "ab", known: "a", asks: []string{"forged b", "b"}, quick: 3, deep: 9})
	add("first fetch failed, two uses", kase{published: "a", known: "", asks: []string{"a", "a"}, quick: 3, deep: 9})
	add("rotation: the old key is gone from the set", kase{published: "b", known: "a", asks: []string{"b", "b"}, quick: 3, deep: 9})
	for _, f := range []struct {
		n string
		a lib.Answer
	}{{"an error", lib.Answer{Err: lib.ErrNet}}, {"status 500", bad}, {"junk", junk}, {"an empty object", empty}} {
		add("fetch answered with "+f.n+", known and new key", kase{published: "ab", known: "a", fail: []lib.Answer{f.a}, asks: []string{"a", "b"}, quick: 2, deep: 5})
		add("fetch answered with "+f.n+", new key twice", kase{published: "ab", known: "a", fail: []lib.Answer{f.a}, asks: []string{"b", "b"}, quick: 2, deep: 5})
		add("fetch answered with "+f.n+", new key twice and known key", kase{published: "ab", known: "a", fail: []lib.Answer{f.a}, asks: []string{"b", "b", "a"}, quick: 1, deep: 2})
	}
	add("published meanwhile", kase{published: "a", known: "a", asks: []string{"b", "a"}, publisher: true, quick: 2, deep: 3})
	add("published meanwhile, two uses", kase{published: "a", known: "a", asks: []string{"b", "b"}, publisher: true, quick: 2, deep: 3})
}

// failedDuring tells whether a request failed before the call ended (it may have joined one already under way).
func (p *prov) failedDuring(c *call) bool {
	for i := 0; i < p.logged; i++ {
		if q := p.log[i]; !q.ok && q.at <= c.end {
			return true
		}
	}
	return false
}

// apiOnly stands for the web strategy where it is not used.
type apiOnly struct{ strategy.Strategy }

// ---------------------------------------------------------------- C16

func c16register() {
	type kase struct {
		fail        []lib.Answer // answers to the discovery requests the threads cause
		threads     []string
		quick, deep int
	}
	add := func(name string, k kase) {
		reg("C16", scenario{name: name, quick: k.quick, deep: k.deep, setup: func() *run {
			p := newProv("disc", lib.K("a"))
			p.user("u", "c1", day)
			p.user("v", "c1", day)
			ku := lib.NewKube()
			ku.PutCookieKeys(5)
			w := lib.NewWorld(ku, nil)
			w.Set(lib.OidcConfig("n", "o", "c1", p.url("disc")))
			w.Set(lib.Policy("n", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o"))))
			visit := lib.Req{NS: "n", Svc: "s", Path: "/page", Method: "GET"}
			callback := func(u string) lib.Req {
				v := w.Do(visit)
				a, _ := lib.ParseAuth(v.Location)
				n, c := v.Cookie()
				return lib.Req{NS: "n", Svc: "s", Path: "/page/oidc/callback", Method: "GET", Code: "code-" + u, State: a.State, Cookies: n + "=" + c}
			}
			// a session of u made before the configuration is updated during an outage
			sess := visit
			v := w.Do(callback("u"))
			n, c := v.Cookie()
			sess.Cookies = n + "=" + c
			cb := callback("v")
			var outage []lib.Answer
			for i := 0; i < 40; i++ {
				outage = append(outage, lib.Answer{Err: lib.ErrNet})
			}
			p.plan["disc"], p.count = outage, [8]int{}
			w.Set(lib.OidcConfig("n", "o", "c1", p.url("disc")))
			p.plan["disc"], p.count, p.logged = k.fail, [8]int{}, 0
			r := &run{}
			var ops []*op
			for _, t := range k.threads {
				q := visit
				switch t {
				case "session":
					q = sess
				case "callback":
					q = cb
				}
				o := &op{newCall(q), t, ""}
				ops = append(ops, o)
				r.thread(t, func() { o.do(w.Adapter) })
			}
			right := func(x lib.Res) bool {
				a, err := lib.ParseAuth(x.Location)
				return x.Kind == lib.KRedirect && err == nil && a.Endpoint == p.url("auth") && a.ClientID == "c1"
			}
			worked := func() bool { return p.succeeded("disc") > 0 }
			r.check = func() (string, string) {
				var outs []string
				for _, o := range ops {
					x := o.classify()
					good := false
					switch o.kind {
					case "visit":
						good = right(x)
					case "session":
						good = x.Kind == lib.KOK && x.OutAuth == p.tokensOf("u").Bearer()
					case "callback":
						nm, _ := x.Cookie()
						good = x.Kind == lib.KRedirect && nm != ""
					}
					outs = append(outs, fmt.Sprint(o.kind, " ", good))
					if !good && (len(k.fail) == 0 || !p.failedDuring(o.call)) {
						return fmt.Sprintf("%s fails although no discovery request failed: %s", o.kind, x), ""
					}
					if x.Kind == lib.KOK && !good {
						return fmt.Sprintf("%s passes with other tokens: %s", o.kind, x), ""
					}
				}
				if n := p.succeeded("disc"); n > 1 {
					return fmt.Sprintf("%d discovery requests succeeded, one is enough", n), ""
				}
				had := worked()
				before := p.logged
				if x := w.Do(visit); had && !right(x) {
					return "afterwards a visit is answered " + x.String(), ""
				}
				if had && p.logged != before {
					return "another discovery request is made after one succeeded", ""
				}
				p.plan["disc"] = nil
				if x := w.Do(visit); !right(x) {
					return "after the provider recovered a visit is answered " + x.String(), ""
				}
				if p.succeeded("disc") != 1 {
					return fmt.Sprintf("%d discovery requests succeeded", p.succeeded("disc")), ""
				}
				// a login goes all the way (code v is unused unless the callback thread used it)
				used := false
				for _, o := range ops {
					used = used || o.kind == "callback"
				}
				if !used {
					x := w.Do(cb)
					nm, c := x.Cookie()
					q := visit
					q.Cookies = nm + "=" + c
					if x = w.Do(q); x.Kind != lib.KOK || x.OutAuth != p.tokensOf("v").Bearer() {
						return "afterwards a login does not work: " + x.String(), ""
					}
				}
				return "", strings.Join(outs, ", ")
			}
			return r
		}})
	}
	docs := map[string]lib.Answer{"an error": {Err: lib.ErrNet}, "status 503": {Status: 503, Body: "{}"}, "junk": lib.OK("junk"),
		"a document without jwks_uri": lib.OK(`{"issuer":"i","authorization_endpoint":"http://evil/auth","token_endpoint":"http://evil/token","userinfo_endpoint":"http://evil/userinfo"}`),
		"a document without userinfo": lib.OK(`{"issuer":"i","authorization_endpoint":"http://evil/auth","token_endpoint":"http://evil/token","jwks_uri":"http://evil/jwks"}`)}
	add("two visits after an outage", kase{threads: []string{"visit", "visit"}, quick: 3, deep: 4})
	add("three visits after an outage", kase{threads: []string{"visit", "visit", "visit"}, quick: 2, deep: 2})
	add("visit and session after an outage", kase{threads: []string{"visit", "session"}, quick: 3, deep: 3})
	add("two session requests after an outage", kase{threads: []string{"session", "session"}, quick: 3, deep: 3})
	add("callback and visit after an outage", kase{threads: []string{"callback", "visit"}, quick: 3, deep: 3})
	add("callback and session after an outage", kase{threads: []string{"callback", "session"}, quick: 2, deep: 2})
	for _, n := range []string{"an error", "status 503", "junk", "a document without jwks_uri", "a document without userinfo"} {
		a := docs[n]
		add("discovery answers "+n+" first, two visits", kase{fail: []lib.Answer{a}, threads: []string{"visit", "visit"}, quick: 3, deep: 3})
		add("discovery answers "+n+" twice, two visits", kase{fail: []lib.Answer{a, a}, threads: []string{"visit", "visit"}, quick: 2, deep: 2})
		add("discovery answers "+n+" first, visit and session", kase{fail: []lib.Answer{a}, threads: []string{"visit", "session"}, quick: 2, deep: 2})
		add("discovery answers "+n+" first, callback and visit", kase{fail: []lib.Answer{a}, threads: []string{"callback", "visit"}, quick: 2, deep: 2})
	}
}

func (p *prov) succeeded(ep string) int {
	n := 0
	for i := 0; i < p.logged; i++ {
		if p.log[i].ep == ep && p.log[i].ok {
			n++
		}
	}
	return n
}

func (p *prov) tokensOf(u string) lib.TokenSet { return p.grants["code-"+u].tokens }
