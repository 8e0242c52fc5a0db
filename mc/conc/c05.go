//go:build go1.21

package main

import (
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strings"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// C05: configuration events on one thread per kind, as the three controllers deliver them, next to requests.

// entry is one path entry; its tag is the scope its rule requires, which denials name.
type entry struct {
	tag, path, method string // path: "=/a" exact, "/a" prefix
	cfg               string // "j..." jwt, "o..." oidc
}

// noRules entries (tags n1, n2, ...) have no rules, so the default ones apply.
func (e entry) noRules() bool { return e.tag[0] == 'n' }
func (e entry) exact() bool   { return strings.HasPrefix(e.path, "=") }
func (e entry) clean() string { return strings.TrimPrefix(e.path, "=") }

func (e entry) covers(path, method string) bool {
	if e.method != "ALL" && e.method != method {
		return false
	}
	p := e.clean()
	if e.exact() {
		return p == path
	}
	return p == "/" || path == p || strings.HasPrefix(path, p+"/")
}

// rank orders covering entries.
func (e entry) rank() int {
	r := 2 * len(strings.TrimSuffix(e.clean(), "/"))
	if e.exact() {
		r = 1000
	}
	if e.method != "ALL" {
		r++
	}
	return r
}

func (e entry) obj() v1.PathConfig {
	typ := "jwt"
	if e.cfg[0] == 'o' {
		typ = "oidc"
	}
	pol := lib.Pol(typ, e.cfg)
	if !e.noRules() {
		pol = lib.Pol(typ, e.cfg, v1.Rule{Claim: "scope", Match: "ALL", Values: []string{e.tag}})
	}
	if e.exact() {
		return lib.Path(e.clean(), "", e.method, pol)
	}
	return lib.Path("", e.clean(), e.method, pol)
}

// event of a controller.
type event struct {
	kind    byte // 'p' policy, 'j' JwtConfig, 'o' OidcConfig
	name    string
	del     bool
	entries []entry
	prov    string // j: provider, o: provider/client
}

func (e event) String() string {
	if e.del {
		return fmt.Sprintf("delete %c %s", e.kind, e.name)
	}
	if e.kind == 'p' {
		return fmt.Sprintf("set policy %s %v", e.name, e.entries)
	}
	return fmt.Sprintf("set %c %s -> %s", e.kind, e.name, e.prov)
}

// state is what exists.
type state struct {
	pols map[string][]entry
	cfgs map[string]string
}

func (s state) apply(e event) state {
	n := state{map[string][]entry{}, map[string]string{}}
	for k, v := range s.pols {
		n.pols[k] = v
	}
	for k, v := range s.cfgs {
		n.cfgs[k] = v
	}
	switch {
	case e.kind == 'p' && e.del:
		delete(n.pols, e.name)
	case e.kind == 'p':
		n.pols[e.name] = e.entries
	case e.del:
		delete(n.cfgs, e.name)
	default:
		n.cfgs[e.name] = e.prov
	}
	return n
}

func (s state) covering(path, method string) (l []entry) {
	for _, es := range s.pols {
		for _, e := range es {
			if e.covers(path, method) {
				l = append(l, e)
			}
		}
	}
	return
}

// ask is one request; token "" sends none.
type ask struct{ path, method, token string }

const c05tags = "t1 t2 t3 t4 t5 t6 t7 t8 t9"

var (
	c05prov  = map[string]*prov{}
	c05token = map[string]string{}
)

func c05init() {
	for _, p := range []string{"a", "b"} {
		c05prov[p] = newProv("c05"+p, lib.K(p))
		c05token[p] = lib.JWT(p, lib.Std("u", "x").With("scope", c05tags))
	}
}

// decision of an entry under the configuration it names ("" absent).
func decision(e entry, cfg string, q ask) string {
	if cfg == "" {
		return "error"
	}
	if e.cfg[0] == 'o' {
		return "login " + cfg
	}
	if q.token == "" && e.noRules() {
		return "denied"
	}
	if q.token == "" {
		return "denied for " + e.tag
	}
	if q.token == cfg {
		return "pass"
	}
	return "denied"
}

var scopeRe = regexp.MustCompile(`scopes?="([^"]*)"`)

func observed(r lib.Res, q ask) string {
	switch r.Kind {
	case lib.KOK:
		return "pass"
	case lib.KError:
		return "error"
	case lib.KRedirect:
		a, err := lib.ParseAuth(r.Location)
		if err != nil {
			return "bad location " + r.Location
		}
		u, _ := url.Parse(a.Endpoint)
		p := strings.TrimPrefix(strings.Split(strings.TrimPrefix(u.Path, "/"), "/")[0], "c05")
		return "login " + p + "/" + a.ClientID
	case lib.KDeny:
		if r.HTTP != 401 {
			return fmt.Sprintf("denied with %d", r.HTTP)
		}
		if q.token != "" {
			return "denied"
		}
		if m := scopeRe.FindStringSubmatch(r.WWW); m != nil {
			return "denied for " + m[1]
		}
		return "denied"
	}
	return r.Kind + " " + r.Err
}

// c05 is one scenario.
type c05 struct {
	init    []event
	writers [][]event
	asks    []ask
}

func (c c05) run() *run {
	k := lib.NewKube()
	k.PutCookieKeys(7)
	w := lib.NewWorld(k, nil)
	send := func(e event) {
		switch {
		case e.kind == 'p' && e.del:
			w.Del(v1.POLICY, "n", e.name)
		case e.kind == 'p':
			o := lib.Policy("n", e.name, "s")
			for _, x := range e.entries {
				o.Spec.Target[0].Paths = append(o.Spec.Target[0].Paths, x.obj())
			}
			w.Set(o)
		case e.kind == 'j' && e.del:
			w.Del(v1.JWTCONFIG, "n", e.name)
		case e.kind == 'j':
			w.Set(lib.JwtConfig("n", e.name, c05prov[e.prov].url("jwks")))
		case e.del:
			w.Del(v1.OIDCCONFIG, "n", e.name)
		default:
			l := strings.Split(e.prov, "/")
			w.Set(lib.OidcConfig("n", e.name, l[1], c05prov[l[0]].url("disc")))
		}
	}
	s0 := state{map[string][]entry{}, map[string]string{}}
	for _, e := range c.init {
		send(e)
		s0 = s0.apply(e)
	}
	r := &run{}
	marks := make([][]*mark, len(c.writers))
	for i, evs := range c.writers {
		i, evs := i, evs
		for range evs {
			marks[i] = append(marks[i], &mark{})
		}
		r.thread(fmt.Sprint("controller ", evs), func() {
			for k, e := range evs {
				marks[i][k].do(func() { send(e) })
			}
		})
	}
	var calls []*call
	for _, q := range c.asks {
		rq := lib.Req{NS: "n", Svc: "s", Path: q.path, Method: q.method}
		if q.token != "" {
			rq.Auth = "Bearer " + c05token[q.token]
		}
		cl := newCall(rq)
		calls = append(calls, cl)
		r.thread(fmt.Sprintf("request %s %s %s", q.method, q.path, q.token), func() { cl.do(w.Adapter) })
	}
	r.check = func() (string, string) {
		var outs []string
		for i, q := range c.asks {
			got := observed(calls[i].classify(), q)
			allowed := c.allowed(s0, marks, calls[i], q)
			if !allowed[got] {
				return fmt.Sprintf("request %s %s (token %q) was answered %q; the objects that existed meanwhile justify only %v", q.method, q.path, q.token, got, keys(allowed)), got
			}
			outs = append(outs, got)
		}
		// afterwards everything is decided by what exists
		s := s0
		for _, evs := range c.writers {
			for _, e := range evs {
				s = s.apply(e)
			}
		}
		seen := map[ask]bool{}
		for _, q := range append(append([]ask{}, c.asks...), ask{"/", "GET", ""}, ask{"/a", "GET", ""}, ask{"/a/b", "GET", ""}, ask{"/a", "POST", ""}) {
			if seen[q] {
				continue
			}
			seen[q] = true
			rq := lib.Req{NS: "n", Svc: "s", Path: q.path, Method: q.method}
			if q.token != "" {
				rq.Auth = "Bearer " + c05token[q.token]
			}
			got := observed(w.Do(rq), q)
			want := "pass"
			best := -1
			for _, e := range s.covering(q.path, q.method) {
				if e.rank() > best {
					best, want = e.rank(), decision(e, s.cfgs[e.cfg], q)
				}
			}
			if got != want {
				return fmt.Sprintf("after all events %v, %s %s (token %q) is answered %q instead of %q", c.writers, q.method, q.path, q.token, got, want), got
			}
		}
		return "", strings.Join(outs, ", ")
	}
	return r
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// allowed returns the decisions the objects that exist during the request justify.
func (c c05) allowed(s0 state, marks [][]*mark, k *call, q ask) map[string]bool {
	states := []state{s0}
	for i, evs := range c.writers {
		var next []state
		for _, s := range states {
			for n := 0; ; n++ {
				sure := n < len(evs) && marks[i][n].end != 0 && marks[i][n].end <= k.start
				if !sure {
					next = append(next, s)
				}
				if n == len(evs) || !marks[i][n].started || marks[i][n].start >= k.end {
					break
				}
				s = s.apply(evs[n])
			}
		}
		states = next
	}
	// the best entry that is there all the time
	stable := -1
	for _, e := range states[0].covering(q.path, q.method) {
		all := true
		for _, s := range states {
			found := false
			for _, x := range s.covering(q.path, q.method) {
				found = found || x == e
			}
			all = all && found
		}
		if all && e.rank() > stable {
			stable = e.rank()
		}
	}
	res := map[string]bool{}
	for _, s := range states {
		cov := s.covering(q.path, q.method)
		if len(cov) == 0 {
			res["pass"] = true
		}
		for _, e := range cov {
			if e.rank() >= stable {
				for _, s2 := range states {
					res[decision(e, s2.cfgs[e.cfg], q)] = true
				}
			}
		}
	}
	return res
}

func setJ(name, prov string) event          { return event{kind: 'j', name: name, prov: prov} }
func setO(name, prov string) event          { return event{kind: 'o', name: name, prov: prov} }
func setP(name string, l ...entry) event    { return event{kind: 'p', name: name, entries: l} }
func del(kind byte, name string) event      { return event{kind: kind, name: name, del: true} }
func ent(tag, path, method, c string) entry { return entry{tag, path, method, c} }

func c05register() {
	c05init()
	add := func(name string, quick, deep int, c c05) {
		reg("C05", scenario{name: name, quick: quick, deep: deep, setup: c.run})
	}
	A, B := ent("t1", "=/a", "ALL", "j1"), ent("t2", "/", "ALL", "j1")
	pa, ab := ent("t3", "/a", "ALL", "j1"), ent("t4", "=/a/b", "ALL", "j1")
	get := ent("t5", "=/a", "GET", "j1")
	oa, oroot := ent("t6", "=/a", "ALL", "o1"), ent("t7", "/", "ALL", "o1")
	cfg := []event{setJ("j1", "a")}
	both := []event{setJ("j1", "a"), setO("o1", "a/c1")}
	G := func(p string) ask { return ask{p, "GET", ""} }
	T := func(p, t string) ask { return ask{p, "GET", t} }
	init := func(b []event, l ...event) []event { return append(append([]event{}, b...), l...) }

	// hand-written: three and four threads
	add("update moves an endpoint, two requests", 2, 4, c05{init(cfg, setP("p", A)), [][]event{{setP("p", ab)}}, []ask{G("/a"), G("/a/b")}})
	add("update keeps an endpoint, two requests", 2, 4, c05{init(cfg, setP("p", A, ab)), [][]event{{setP("p", A, pa)}}, []ask{G("/a"), G("/a/b")}})
	add("delete below an enclosing prefix, two requests", 2, 4, c05{init(cfg, setP("p", B), setP("q", A, ab)), [][]event{{del('p', "q")}}, []ask{G("/a"), G("/a/b")}})
	add("create below a prefix, two requests", 2, 4, c05{init(cfg, setP("p", B)), [][]event{{setP("q", A, get)}}, []ask{G("/a"), G("/a/b")}})
	add("delete and create again", 3, 5, c05{init(cfg, setP("p", B), setP("q", A)), [][]event{{del('p', "q"), setP("q", A)}}, []ask{G("/a")}})
	add("create, move, delete", 3, 5, c05{init(cfg, setP("p", B)), [][]event{{setP("q", A), setP("q", ab), del('p', "q")}}, []ask{G("/a")}})
	add("first policy of a service and an untouched one", 3, 5, c05{init(cfg, setP("p", A)), [][]event{{setP("q", ab)}}, []ask{G("/a"), T("/a", "a")}})
	add("JwtConfig moves to another provider", 3, 5, c05{init(cfg, setP("p", B)), [][]event{{setJ("j1", "b")}}, []ask{T("/a", "a")}})
	add("JwtConfig moves to another provider, two tokens", 2, 3, c05{init(cfg, setP("p", B)), [][]event{{setJ("j1", "b")}}, []ask{T("/a", "a"), T("/a", "b")}})
	add("JwtConfig deleted and created", 3, 5, c05{init(cfg, setP("p", B)), [][]event{{del('j', "j1"), setJ("j1", "a")}}, []ask{T("/a", "a")}})
	add("OidcConfig created", 3, 5, c05{init(cfg, setP("p", oroot)), [][]event{{setO("o1", "a/c1")}}, []ask{G("/a")}})
	add("OidcConfig moves to another provider", 2, 4, c05{init(both, setP("p", oroot)), [][]event{{setO("o1", "b/c2")}}, []ask{G("/a"), G("/a/b")}})
	add("OidcConfig updated to another client then deleted", 2, 4, c05{init(both, setP("p", oroot)), [][]event{{setO("o1", "a/c2"), del('o', "o1")}}, []ask{G("/a")}})
	add("policy and JwtConfig controllers", 2, 4, c05{init(cfg, setP("p", B)), [][]event{{setP("q", A), del('p', "q")}, {setJ("j1", "b")}}, []ask{T("/a", "a")}})
	add("policy and OidcConfig controllers", 2, 4, c05{init(both, setP("p", B)), [][]event{{setP("q", oa)}, {setO("o1", "b/c2")}}, []ask{G("/a")}})
	add("three controllers and a request", 1, 3, c05{init(both, setP("p", B)), [][]event{{setP("q", oa), del('p', "q")}, {setJ("j1", "b")}, {setO("o1", "b/c2")}}, []ask{G("/a")}})
	add("three controllers at startup", 2, 3, c05{nil, [][]event{{setP("p", A, oroot)}, {setJ("j1", "a")}, {setO("o1", "a/c1")}}, []ask{G("/a")}})
	add("policy type changes from jwt to oidc", 3, 5, c05{init(both, setP("p", A)), [][]event{{setP("p", oa)}}, []ask{G("/a"), T("/a", "a")}})

	na, nroot := ent("n1", "=/a", "ALL", "o1"), ent("n2", "/", "ALL", "o2")
	jab := ent("n3", "=/a/b", "ALL", "j1")
	two := []event{setJ("j1", "a"), setO("o1", "a/c1"), setO("o2", "b/c2")}
	add("default rules, two clients", 2, 3, c05{init(two, setP("p", na, nroot)), nil, []ask{G("/a"), G("/c")}})
	add("default rules of both types", 2, 3, c05{init(two, setP("p", nroot, jab)), nil, []ask{G("/a"), T("/a/b", "a"), G("/a/b")}})
	add("default rules, policy changes its client", 2, 4, c05{init(two, setP("p", na)), [][]event{{setP("p", nroot)}}, []ask{G("/a"), T("/a", "a")}})

	// generated: every single event on every pair of policies, each with every request
	dom := []entry{ent("t1", "=/a", "ALL", "j1"), ent("t2", "/", "ALL", "j1"), ent("t3", "/a", "ALL", "j1"), ent("t4", "=/a/b", "ALL", "j1"), ent("t5", "=/a", "GET", "j1")}
	second := []entry{{}, ent("t6", "=/a", "ALL", "j1"), ent("t7", "/", "ALL", "j1"), ent("t8", "/a", "ALL", "j1"), ent("t9", "=/a", "GET", "j1")}
	sets := [][]entry{nil}
	for i, e := range dom {
		sets = append(sets, []entry{e})
		for _, f := range dom[i+1:] {
			sets = append(sets, []entry{e, f})
		}
	}
	name := func(l []entry) string {
		if l == nil {
			return "-"
		}
		var s []string
		for _, e := range l {
			s = append(s, e.method+e.path)
		}
		return strings.Join(s, "+")
	}
	for _, from := range sets {
		for _, to := range sets {
			if len(from) == 0 && len(to) == 0 {
				continue
			}
			big := len(from) > 1 || len(to) > 1
			for _, o := range second {
				in := init(cfg)
				clash := false
				if o.tag != "" {
					in = append(in, setP("q", o))
					for _, e := range append(append([]entry{}, from...), to...) {
						clash = clash || (e.path == o.path && e.method == o.method)
					}
				}
				if clash { // which of two policies claiming one endpoint decides is not specified
					continue
				}
				if from != nil {
					in = append(in, setP("p", from...))
				}
				ev := del('p', "p")
				if to != nil {
					ev = setP("p", to...)
				}
				for _, q := range []ask{G("/a"), G("/a/b"), G("/c"), {"/a", "POST", ""}} {
					quick := 9
					if big {
						quick = -1
					}
					add(fmt.Sprintf("gen %s => %s beside %s: %s %s", name(from), name(to), name([]entry{o}), q.method, q.path), quick, 9, c05{in, [][]event{{ev}}, []ask{q}})
				}
			}
		}
	}
}
