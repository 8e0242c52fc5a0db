//go:build go1.21

package main

import (
	"fmt"
	"net/url"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// ---------------------------------------------------------------- reference model

// ent is one path entry of a policy, as a user wrote it. tag identifies the entry in the adapter's answer.
type ent struct {
	svc, exact, prefix, method, typ, tag string
}

// slot is a policy object; specs are the versions it may have.
type slot struct{ ns, name string }
type spec []ent

func (e ent) normMethod() string {
	switch e.method {
	case "GET", "PUT", "POST", "DELETE", "PATCH":
		return e.method
	}
	return "ALL"
}

// target is one normalised (kind, path) an entry protects.
type target struct {
	exact bool
	path  string // prefix "/" is the root prefix
}

func (e ent) targets() []target {
	var t []target
	if e.exact != "" {
		p := e.exact
		if p != "/" {
			if p = strings.TrimRight(p, "/"); p == "" {
				p = "/"
			}
		}
		t = append(t, target{true, p})
	}
	if e.prefix != "" {
		p := strings.TrimSuffix(strings.TrimSuffix(e.prefix, "*"), "/")
		if p == "" {
			p = "/"
		}
		t = append(t, target{false, p})
	}
	if e.exact == "" && e.prefix == "" {
		t = append(t, target{false, "/"})
	}
	return t
}

func (t target) covers(path string) bool {
	if t.exact {
		return path == t.path
	}
	return t.path == "/" || path == t.path || strings.HasPrefix(path, t.path+"/")
}

// rank orders targets: higher is more specific.
func (t target) rank() int {
	if t.exact {
		return 1 << 20
	}
	if t.path == "/" {
		return 0
	}
	return len(t.path)
}

// normPath is the path a request is decided by.
func normPath(p string) string {
	if p != "/" {
		p = strings.TrimRight(p, "/")
	}
	for _, s := range []string{"/oidc/callback", "/oidc/logout"} {
		if strings.HasSuffix(p, s) {
			p = strings.TrimSuffix(p, s)
			break
		}
	}
	if p = strings.TrimRight(p, "/"); p == "" {
		p = "/"
	}
	return p
}

// expect returns the tags of the entries that may decide the request (none: uncovered).
func expect(live map[slot]spec, r lib.Req) map[string]bool {
	path := normPath(r.Path)
	best, tags := -1, map[string]bool{}
	for s, sp := range live {
		if s.ns != r.NS {
			continue
		}
		for _, e := range sp {
			if e.svc != r.Svc || e.tag == "" {
				continue
			}
			m := e.normMethod()
			if m != "ALL" && m != r.Method {
				continue
			}
			for _, t := range e.targets() {
				if !t.covers(path) {
					continue
				}
				rank := 2 * t.rank()
				if m != "ALL" {
					rank++
				}
				if rank > best {
					best, tags = rank, map[string]bool{}
				}
				if rank == best {
					tags[e.tag] = true
				}
			}
		}
	}
	return tags
}

// conflict tells whether two live entries claim the same endpoint.
func conflict(live map[slot]spec) bool {
	seen := map[string]bool{}
	for s, sp := range live {
		for _, e := range sp {
			for _, t := range e.targets() {
				k := fmt.Sprintf("%s|%s|%v|%s|%s", s.ns, e.svc, t.exact, t.path, e.normMethod())
				if seen[k] {
					return true
				}
				seen[k] = true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- driving the real code

func (s slot) object(sp spec) *v1.Policy {
	p := &v1.Policy{}
	p.Namespace, p.Name = s.ns, s.name
	idx := map[string]int{}
	for _, e := range sp {
		i, ok := idx[e.svc]
		if !ok {
			i = len(p.Spec.Target)
			idx[e.svc] = i
			p.Spec.Target = append(p.Spec.Target, v1.TargetElement{ServiceName: e.svc})
		}
		pol := v1.PathPolicy{PolicyType: e.typ}
		if e.typ == "oidc" {
			pol.Config = "oc-" + e.tag
		} else {
			pol.Config = "jc"
			pol.Rules = []v1.Rule{{Claim: "scope", Match: "ALL", Values: []string{e.tag}}}
		}
		p.Spec.Target[i].Paths = append(p.Spec.Target[i].Paths, v1.PathConfig{Exact: e.exact, Prefix: e.prefix, Method: e.method, Policies: []v1.PathPolicy{pol}})
	}
	return p
}

type event struct {
	s  slot
	sp int // index into the scenario's specs, -1: delete
}

// scenario is one alphabet.
type scenario struct {
	name     string
	slots    []slot
	specs    []spec
	reqs     []lib.Req
	maxDepth int
	tags     []string
	oidcTags []string
	nss      []string
}

func (sc *scenario) init() {
	seen := map[string]bool{}
	for _, sp := range sc.specs {
		for _, e := range sp {
			if !seen[e.tag] {
				seen[e.tag] = true
				sc.tags = append(sc.tags, e.tag)
				if e.typ == "oidc" {
					sc.oidcTags = append(sc.oidcTags, e.tag)
				}
			}
		}
	}
	nss := map[string]bool{}
	for _, s := range sc.slots {
		nss[s.ns] = true
	}
	for n := range nss {
		sc.nss = append(sc.nss, n)
	}
	sort.Strings(sc.nss)
}

func (sc *scenario) events() []event {
	var l []event
	for _, s := range sc.slots {
		for i := range sc.specs {
			l = append(l, event{s, i})
		}
		l = append(l, event{s, -1})
	}
	return l
}

func (sc *scenario) show(h []event) []string {
	var l []string
	for _, e := range h {
		if e.sp < 0 {
			l = append(l, fmt.Sprintf("delete Policy %s/%s", e.s.ns, e.s.name))
			continue
		}
		var p []string
		for _, x := range sc.specs[e.sp] {
			p = append(p, fmt.Sprintf("%s exact=%q prefix=%q %s %s[%s]", x.svc, x.exact, x.prefix, x.method, x.typ, x.tag))
		}
		l = append(l, fmt.Sprintf("set Policy %s/%s {%s}", e.s.ns, e.s.name, strings.Join(p, "; ")))
	}
	return l
}

var (
	polIdp  *lib.IdP
	polOnce sync.Once
	polKube *lib.Kube
	polWeb  strategy.Strategy
)

func polInit() {
	polOnce.Do(func() {
		polIdp = lib.NewIdP("pol", lib.K("a"))
		polKube = lib.NewKube()
		polKube.PutCookieKeys(1)
		_, polWeb = lib.NewStrategies(polKube)
	})
}

func (sc *scenario) world() *lib.World {
	polInit()
	w := lib.NewWorld(polKube, polWeb)
	for _, ns := range sc.nss {
		w.Set(lib.JwtConfig(ns, "jc", polIdp.URL("jwks")))
		for _, t := range sc.oidcTags {
			w.Set(lib.OidcConfig(ns, "oc-"+t, t, polIdp.URL("disc")))
		}
	}
	polIdp.ResetLog()
	return w
}

func (sc *scenario) apply(w *lib.World, e event) {
	if e.sp < 0 {
		w.Del(v1.POLICY, e.s.ns, e.s.name)
	} else {
		w.Set(e.s.object(sc.specs[e.sp]))
	}
}

func (sc *scenario) live(h []event) map[slot]spec {
	m := map[slot]spec{}
	for _, e := range h {
		if e.sp < 0 {
			delete(m, e.s)
		} else {
			m[e.s] = sc.specs[e.sp]
		}
	}
	return m
}

var tagRe = regexp.MustCompile(`tag[a-z0-9]+`)

// ask returns the normalised answer to an unauthenticated request.
func (sc *scenario) ask(w *lib.World, r lib.Req) string {
	res := w.Do(r)
	switch res.Kind {
	case lib.KOK, lib.KError, lib.KPanic:
		if res.Kind == lib.KError && strings.Contains(res.Err, "missing") {
			return lib.KError
		}
		return res.Kind + strings.TrimSuffix(":"+res.Err, ":")
	}
	text := res.WWW
	if res.Kind == lib.KRedirect {
		if u, err := url.Parse(res.Location); err == nil {
			text = u.Query().Get("client_id")
		}
		name, _ := res.Cookie()
		text += " " + name
	}
	tag := ""
	for _, t := range tagRe.FindAllString(text, -1) {
		if !strings.Contains(tag+",", ","+t+",") {
			tag += "," + t
		}
	}
	tag = strings.TrimPrefix(tag, ",")
	return res.Kind + ":" + tag
}

func liveKey(m map[slot]spec) string {
	var l []string
	for s, sp := range m {
		l = append(l, fmt.Sprintf("%v=%v", s, sp))
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

// run explores the scenario breadth first until no new state appears (or the depth bound).
func (sc *scenario) run(c *lib.Check) {
	sc.init()
	evs := sc.events()
	type node struct {
		h []event
	}
	seen := map[uint64]bool{}
	var freshMu sync.Mutex
	fresh := map[string][]string{}
	frontier := []node{{nil}}
	{
		w := sc.world()
		seen[lib.Hash(lib.Dump(w.Store)+liveKey(nil))] = true
		sc.judge(c, w, nil, &freshMu, fresh)
		c.Count("states", 1)
	}
	depth := 0
	for len(frontier) > 0 {
		if depth >= sc.maxDepth {
			c.Cap(fmt.Sprintf("scenario %s: history depth %d", sc.name, sc.maxDepth))
			break
		}
		depth++
		var mu sync.Mutex
		var next []node
		lib.Parallel(len(frontier), runtime.NumCPU(), func(i int) {
			if c.Stop() {
				return
			}
			n := frontier[i]
			for _, e := range evs {
				h := append(append([]event{}, n.h...), e)
				w := sc.world()
				for _, x := range h {
					sc.apply(w, x)
				}
				key := lib.Hash(lib.Dump(w.Store) + liveKey(sc.live(h)))
				c.Count("transitions", 1)
				mu.Lock()
				isNew := !seen[key]
				seen[key] = true
				if isNew {
					next = append(next, node{h})
				}
				mu.Unlock()
				if isNew {
					c.Count("states", 1)
					sc.judge(c, w, h, &freshMu, fresh)
				}
			}
		})
		if c.Stop() {
			return
		}
		frontier = next
	}
	c.Count("max_depth_"+sc.name, depth)
}

// judge compares every request's answer in one state with the property's oracle.
func (sc *scenario) judge(c *lib.Check, w *lib.World, h []event, mu *sync.Mutex, fresh map[string][]string) {
	live := sc.live(h)
	var ref []string
	if c.Prop == "C03" {
		if conflict(live) {
			return
		}
		k := liveKey(live)
		mu.Lock()
		ref = fresh[k]
		mu.Unlock()
		if ref == nil {
			fw := sc.world()
			for _, s := range sc.slots {
				if sp, ok := live[s]; ok {
					fw.Set(s.object(sp))
				}
			}
			for _, r := range sc.reqs {
				ref = append(ref, sc.ask(fw, r))
			}
			mu.Lock()
			fresh[k] = ref
			mu.Unlock()
		}
	}
	c.Count("traces_validated_against_impl", 1)
	for i, r := range sc.reqs {
		got := sc.ask(w, r)
		c.Count("requests_evaluated", 1)
		c.Outcome(got)
		if bad := sc.oracle(c.Prop, live, r, got, ref, i); bad != "" {
			again := func() bool {
				w2 := sc.world()
				for _, x := range h {
					sc.apply(w2, x)
				}
				return sc.oracle(c.Prop, live, r, sc.ask(w2, r), ref, i) != ""
			}
			c.Violation("policy", fmt.Sprintf("%s: after %v the request %v: %s", sc.name, sc.show(h), r, bad),
				map[string]interface{}{"scenario": sc.name, "events": sc.show(h), "request": r.String(), "answer": got}, again)
			return
		}
	}
	if len(h) > 1 && c.WantSample() {
		r := sc.reqs[len(h)%len(sc.reqs)]
		c.Sample(map[string]interface{}{"scenario": sc.name, "events": sc.show(h), "request": r.String(), "answer": sc.ask(w, r)})
	}
}

func (sc *scenario) oracle(prop string, live map[slot]spec, r lib.Req, got string, ref []string, i int) string {
	switch prop {
	case "C01":
		if tags := expect(live, r); len(tags) > 0 && strings.HasPrefix(got, lib.KOK) {
			return fmt.Sprintf("passed without credentials although covered by entries %v", keysOf(tags))
		} else if len(tags) > 0 && strings.HasPrefix(got, lib.KPanic) {
			return "panic " + got
		}
	case "C02":
		tags := expect(live, r)
		if len(tags) == 0 {
			if got != lib.KOK {
				return "no live entry covers it but the answer is " + got
			}
			return ""
		}
		for t := range tags {
			if strings.HasSuffix(got, ":"+t) {
				return ""
			}
		}
		return fmt.Sprintf("decided as %s, expected entry %v", got, keysOf(tags))
	case "C03":
		if got != ref[i] {
			return fmt.Sprintf("decided as %s, an adapter given only the live objects says %s", got, ref[i])
		}
	}
	return ""
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---------------------------------------------------------------- scenarios

func reqs(ns string, svcs, methods, paths []string) []lib.Req {
	var l []lib.Req
	for _, s := range svcs {
		for _, m := range methods {
			for _, p := range paths {
				l = append(l, lib.Req{NS: ns, Svc: s, Method: m, Path: p})
			}
		}
	}
	return l
}

// entry shorthands
func ex(path, m, typ, tag string) ent { return ent{"s1", path, "", m, typ, tag} }
func px(path, m, typ, tag string) ent { return ent{"s1", "", path, m, typ, tag} }

var (
	stdPaths = []string{"/", "/a", "/a/b", "/a/b/c", "/a/c", "/ab", "/x", "/a/", "/a/b/oidc/callback", "/a/oidc/logout", "/oidc/logout"}
)

// charPaths are paths with characters that carry a meaning elsewhere.
var charPaths = []string{"/a#b", "/a?b", "/a%2Fb", "/a;b", "/a b", "/a/é", "/A", "/a.b/c", "/a:b", "/%61", "/a,b", "/a|b", "/a/..", "/a&b=c", "/a\\b", "/a+b", "/a@b"}

func policyScenarios(c *lib.Check) []*scenario {
	A, B, C := slot{"ns1", "pa"}, slot{"ns1", "pab"}, slot{"ns1", "a"}
	D := slot{"ns2", "pa"}
	m3 := []string{"GET", "POST", "HEAD", "get"}
	s1 := []string{"s1"}
	// two policies, broad library of overlapping versions
	broad := []spec{
		{ex("/a", "ALL", "jwt", "tagjaa")},
		{ex("/a", "GET", "jwt", "tagjag")},
		{px("/a", "ALL", "jwt", "tagjpa")},
		{px("/a/", "POST", "oidc", "tagopap")},
		{px("/", "ALL", "jwt", "tagjroot")},
		{px("/", "GET", "jwt", "tagjrootg")},
		{ex("/a/b", "POST", "jwt", "tagjabp"), px("/a/b/*", "GET", "jwt", "tagjpabg")},
		{ex("/", "ALL", "jwt", "tagjslash")},
		{ent{"s1", "", "", "", "oidc", "tagoall"}},
		{},
	}
	list := []*scenario{
		{name: "two-policies", slots: []slot{A, B}, specs: broad, reqs: reqs("ns1", s1, m3, stdPaths), maxDepth: c.Pick(4, 8)},
		{name: "three-policies", slots: []slot{A, B, C}, specs: []spec{
			{ex("/a", "ALL", "jwt", "tagja")}, {px("/a", "ALL", "jwt", "tagjp")}, {px("/", "GET", "jwt", "tagjr")}, {ex("/a", "GET", "jwt", "tagjg"), px("/a/b", "", "oidc", "tagob")},
		}, reqs: reqs("ns1", s1, m3, stdPaths), maxDepth: c.Pick(5, 9)},
		{name: "one-policy-versions", slots: []slot{A}, specs: append(broad,
			spec{ex("/a", "ALL", "jwt", "tagjaa"), px("/a", "ALL", "jwt", "tagjpa")},
			spec{ent{"s1", "/a/b/", "/a", "GET", "jwt", "tagjboth"}},
			spec{ex("/a", "GET", "jwt", "tagjag"), ex("/a", "POST", "oidc", "tagoapost"), ex("/a/b", "ALL", "jwt", "tagjabb"), px("/a/b/c", "DELETE", "jwt", "tagjabcd")},
		), reqs: reqs("ns1", s1, []string{"GET", "POST", "DELETE", "HEAD"}, stdPaths), maxDepth: c.Pick(5, 10)},
		{name: "same-path-entries", slots: []slot{A, B}, specs: samePath(), reqs: reqs("ns1", s1, []string{"GET", "POST", "PUT"}, []string{"/a", "/a/b", "/x"}), maxDepth: c.Pick(3, 5)},
		{name: "trailing-slashes", slots: []slot{A, B}, specs: []spec{
			{ex("/a//", "ALL", "jwt", "tagja")}, {ex("/a/", "GET", "jwt", "tagjb")}, {ex("//", "ALL", "jwt", "tagjc")}, {ex("/a/b///", "GET", "jwt", "tagjd")}, {px("/a/", "ALL", "jwt", "tagje")}, {px("/a/*", "GET", "jwt", "tagjf")}, {px("/*", "ALL", "jwt", "tagjg")},
			{ex("/a", "POST", "jwt", "tagjh"), px("/", "GET", "jwt", "tagji")},
		}, reqs: reqs("ns1", s1, []string{"GET", "POST"}, []string{"/", "//", "///", "/a", "/a/", "/a//", "/a///", "/a/b", "/a/b/", "/a/b//", "/a/b///", "/a/c/", "/a/c//", "/x", "/x/", "/a//oidc/callback", "//oidc/callback"}), maxDepth: c.Pick(3, 5)},
		{name: "policies-that-become-empty", slots: []slot{A, B}, specs: []spec{
			{}, {ex("/a", "ALL", "jwt", "tagja")}, {ex("/a", "ALL", "jwt", "tagjb"), px("/a/b", "GET", "jwt", "tagjc")}, {px("/a", "GET", "oidc", "tagod"), px("/a/b", "GET", "jwt", "tagje")},
		}, reqs: reqs("ns1", s1, m3, stdPaths), maxDepth: c.Pick(6, 9)},
		{name: "unusual-paths", slots: []slot{A, B}, specs: func() (l []spec) {
			for i, p := range charPaths {
				l = append(l, spec{ex(p, "ALL", "jwt", fmt.Sprintf("tagx%c", 'a'+i))}, spec{px(p, "GET", "jwt", fmt.Sprintf("tagp%c", 'a'+i))})
			}
			return append(l, spec{px("/", "ALL", "jwt", "tagroot")}, spec{px("/a", "ALL", "jwt", "tagjpa")})
		}(), reqs: reqs("ns1", s1, []string{"GET", "POST"}, func() (l []string) {
			for _, p := range charPaths {
				l = append(l, p, p+"/", p+"/x", p+"x", strings.TrimSuffix(p, p[len(p)-1:]))
			}
			return append(l, "/", "/a", "/A", "/a/b", "//a", "/a//b", "/a/../b", "/./a", "/a;v=1", "/a?x", "/a#x", "/a%2Fb", "/a%2fb", "/%61", "/a\\b", "/a b", "/a+b", "/é", "/a,b", "/a|b", "/a\tb", "/a.b", "/a:b", "/a=b", "/a&b", "/a*", "/a~", "/a'", "/a\"")
		}()), maxDepth: c.Pick(2, 3)},
		{name: "services-and-namespaces", slots: []slot{A, D, {"ns", "1pa"}}, specs: []spec{
			{ent{"s1", "/a", "", "ALL", "jwt", "tagjs1"}},
			{ent{"s2", "/a", "", "GET", "jwt", "tagjs2"}, ent{"s1", "", "/", "ALL", "oidc", "tagos1"}},
			{ent{"s2", "", "/a", "ALL", "jwt", "tagjs2p"}},
			{ent{"s2", "/a", "", "ALL", "jwt", "tagjs2e"}},
			{ent{"s1", "/a", "", "ALL", "jwt", "tagjmove"}, ent{"s2", "/a", "", "ALL", "jwt", "tagjmovf"}},
		}, reqs: append(append(reqs("ns1", []string{"s1", "s2", "s3", "s"}, m3, []string{"/", "/a", "/a/b", "/x"}), reqs("ns2", []string{"s1", "s2"}, m3, []string{"/", "/a", "/a/b", "/x"})...), reqs("ns", []string{"1s1", "s1", "s2"}, m3, []string{"/", "/a", "/a/b", "/x"})...), maxDepth: c.Pick(6, 12)},
		{name: "two-services-two-policies", slots: []slot{A, B}, specs: []spec{
			{ex("/a", "ALL", "jwt", "tagja")},
			{ent{"s2", "/a", "", "ALL", "jwt", "tagjb"}, px("/", "ALL", "jwt", "tagjc")},
			{ent{"s2", "/a", "", "GET", "jwt", "tagjd"}, ent{"s2", "/b", "", "ALL", "jwt", "tagje"}},
			{ent{"s2", "", "/", "ALL", "jwt", "tagjf"}, ex("/a", "GET", "jwt", "tagjg"), ent{"s2", "/b", "", "GET", "jwt", "tagjh"}},
		}, reqs: reqs("ns1", []string{"s1", "s2"}, []string{"GET", "POST"}, []string{"/", "/a", "/b"}), maxDepth: c.Pick(5, 8)},
		{name: "callback-like-paths", slots: []slot{A, B}, specs: []spec{
			{ex("/a/oidc/callback/b", "ALL", "jwt", "tagja")}, {ex("/a/oidc/logout/b", "GET", "jwt", "tagjb")}, {px("/a/oidc", "ALL", "jwt", "tagjc")},
			{px("/a/oidc/callback/b", "GET", "jwt", "tagjd")}, {px("/a", "POST", "jwt", "tagje")}, {ex("/a/oidc/callbackx", "ALL", "jwt", "tagjf"), px("/a/oidc/logout2", "ALL", "oidc", "tagog")},
			{px("/oidc", "ALL", "jwt", "tagjh")},
		}, reqs: reqs("ns1", s1, []string{"GET", "POST"}, []string{"/a/oidc/callback/b", "/a/oidc/callback/b/", "/a/oidc/callback/b/c", "/a/oidc/callback/c", "/a/oidc/logout/b", "/a/oidc/logout/b/c", "/a/oidc/callbackx", "/a/oidc/logout2", "/a/oidc/logout2/b", "/a/oidc",
			"/a/oidc/callback/b/oidc/callback", "/a/oidc/logout/b/oidc/logout", "/a/oidc/callback/b/oidc/logout", "/a/oidc/logout/b/c/oidc/callback", "/a/oidc/callback/oidc/callback", "/a/oidc/", "/a/oidc/callback", "/a/oidc/logout", "/a/oidc/x", "/oidc", "/oidc/callback", "/oidc/x", "/oidc/callback/x", "/a/xoidc/callback", "/a", "/a/b/oidc/callback", "/b/oidc/callback", "/b/oidc/callback/a"}), maxDepth: c.Pick(3, 5)},
		{name: "deep-paths", slots: []slot{A, B}, specs: []spec{
			{px("/a", "ALL", "jwt", "tagja")}, {px(deep(7), "GET", "jwt", "tagjb")}, {ex(deep(9), "ALL", "jwt", "tagjc")}, {px(deep(12), "ALL", "jwt", "tagjd"), ex(deep(20), "GET", "jwt", "tagje")},
			{px("/", "POST", "jwt", "tagjf")}, {ex(deep(50), "ALL", "jwt", "tagji"), ex(deep(90), "GET", "jwt", "tagjj")}, {ex(deep(40), "ALL", "jwt", "tagjg"), px(deep(33), "ALL", "oidc", "tagoh")},
		}, reqs: reqs("ns1", s1, []string{"GET", "POST"}, func() (l []string) {
			for _, n := range []int{1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 32, 33, 34, 40, 41, 50, 51, 64, 65, 90, 100} {
				l = append(l, deep(n), deep(n)+"/x")
			}
			return append(l, "/a/"+strings.Repeat("x", 300), "/"+strings.Repeat("a", 5000)+"/b", "/a/"+strings.Repeat("a", 9000))
		}()), maxDepth: c.Pick(3, 5)},
		{name: "many-entries", slots: []slot{A, B, C}, specs: []spec{
			wide("a", "GET", 0, 9), wide("b", "GET", 4, 14), wide("c", "ALL", 8, 10), {ex("/w8", "GET", "jwt", "tagex"), px("/", "ALL", "jwt", "tagroot")},
		}, reqs: reqs("ns1", s1, []string{"GET", "POST"}, func() (l []string) {
			for i := 0; i < 15; i++ {
				l = append(l, fmt.Sprintf("/w%d", i), fmt.Sprintf("/w%d/x", i))
			}
			return l
		}()), maxDepth: c.Pick(4, 6)},
		{name: "similar-names", slots: []slot{{"ns1", "p"}, {"ns1", "p-1"}, {"ns1", "1p"}, {"ns11", "p"}, {"default", "p"}}, specs: []spec{
			{ex("/a", "ALL", "jwt", "tagja")}, {ex("/a", "ALL", "oidc", "tagob"), px("/a", "GET", "jwt", "tagjc")},
		}, reqs: append(append(reqs("ns1", []string{"s1", "1s1"}, m3, []string{"/", "/a", "/a/b"}), reqs("ns11", []string{"s1"}, m3, []string{"/", "/a", "/a/b"})...), append(reqs("default", s1, m3, []string{"/", "/a"}), reqs("", s1, m3, []string{"/a"})...)...), maxDepth: c.Pick(6, 12)},
	}
	return list
}

// samePath is every policy of one or two distinct entries on one path.
func samePath() (l []spec) {
	var es []ent
	for i, m := range []string{"ALL", "GET", "POST"} {
		es = append(es, ex("/a", m, "jwt", fmt.Sprintf("tage%c", 'a'+i)), px("/a", m, "jwt", fmt.Sprintf("tagp%c", 'a'+i)))
	}
	for i, e := range es {
		l = append(l, spec{e})
		for _, f := range es[i+1:] {
			l = append(l, spec{e, f})
		}
	}
	return append(l, spec{es[2], es[0]}, spec{es[4], es[2]}, spec{es[3], es[1]}, spec{es[5], es[3]})
}

// deep is a path of n segments below /a.
func deep(n int) string {
	p := "/a"
	for i := 1; i < n; i++ {
		p += fmt.Sprintf("/s%d", i)
	}
	return p
}

// wide is a policy of one entry for each of the paths /w<from> to /w<to-1>, alternately exact and prefix.
func wide(tag, method string, from, to int) (l spec) {
	for i := from; i < to; i++ {
		t := fmt.Sprintf("tag%s%c", tag, 'a'+i)
		if i%2 == 0 {
			l = append(l, ex(fmt.Sprintf("/w%d", i), method, "jwt", t))
		} else {
			l = append(l, px(fmt.Sprintf("/w%d", i), method, "jwt", t))
		}
	}
	return l
}

func policyCheck(prop string) {
	c := lib.NewCheck(prop, "model_checking")
	c.Assumptions = []string{"path entries without any policy are outside the alphabet", "one jwt/oidc policy per path entry (the adapter applies only the first)"}
	for _, sc := range policyScenarios(c) {
		if c.Stop() {
			break
		}
		sc.run(c)
	}
	manyPolicies(c)
	if prop == "C03" {
		policyVersions(c)
	} else {
		entrySets(c)
	}
	c.Finish()
}

// entrySets enumerates every ordered selection of up to k distinct entries of a domain, each as a policy of its own
// or all in one policy, against every request of the domain.
func entrySets(c *lib.Check) {
	var dom []ent
	n := 0
	add := func(exact, prefix, m string) {
		n++
		typ := "jwt"
		if n%7 == 0 {
			typ = "oidc"
		}
		dom = append(dom, ent{"s1", exact, prefix, m, typ, fmt.Sprintf("tag%c%c", 'a'+n/26, 'a'+n%26)})
	}
	for _, p := range []string{"/", "/a", "/a/b", "/a/b/c"} {
		for _, m := range []string{"ALL", "GET", "POST"} {
			add(p, "", m)
		}
	}
	for _, p := range []string{"/", "/a", "/a/b"} {
		for _, m := range []string{"ALL", "GET", "POST"} {
			add("", p, m)
		}
	}
	k := c.Pick(3, 4)
	if c.Prop == "C01" {
		k-- // C02 judges the same sets with a stronger oracle
	}
	var sets [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			sets = append(sets, append([]int{}, cur...))
		}
		if len(cur) == k {
			return
		}
		for i := range dom {
			dup := false
			for _, j := range cur {
				dup = dup || i == j
			}
			if !dup {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
	paths := []string{"/", "/a", "/a/b", "/a/b/c", "/a/b/c/d", "/a/d", "/ab", "/a/bc", "/b"}
	sc := &scenario{name: "entry-sets", slots: []slot{{"ns1", "p0"}}, specs: []spec{dom}, nss: nil}
	sc.init()
	rq := reqs("ns1", []string{"s1"}, []string{"GET", "POST", "PUT"}, paths)
	lib.Parallel(len(sets), runtime.NumCPU(), func(i int) {
		if c.Stop() {
			return
		}
		for mode := 0; mode < 2; mode++ {
			build := func() (*lib.World, map[slot]spec) {
				w := sc.world()
				live := map[slot]spec{}
				if mode == 0 {
					for n, j := range sets[i] {
						s := slot{"ns1", fmt.Sprintf("p%d", n)}
						live[s] = spec{dom[j]}
						w.Set(s.object(live[s]))
					}
				} else {
					s := slot{"ns1", "p"}
					for _, j := range sets[i] {
						live[s] = append(live[s], dom[j])
					}
					w.Set(s.object(live[s]))
				}
				return w, live
			}
			w, live := build()
			c.Count("states", 1)
			c.Count("transitions", len(sets[i]))
			c.Count("traces_validated_against_impl", 1)
			for _, r := range rq {
				got := sc.ask(w, r)
				c.Count("requests_evaluated", 1)
				if bad := sc.oracle(c.Prop, live, r, got, nil, 0); bad != "" {
					c.Violation("policy", fmt.Sprintf("entries %v: request %v: %s", live, r, bad), map[string]interface{}{"entries": fmt.Sprint(live), "request": r.String()}, func() bool {
						w2, _ := build()
						return sc.oracle(c.Prop, live, r, sc.ask(w2, r), nil, 0) != ""
					})
					return
				}
			}
		}
	})
	c.Count("entry_sets", len(sets))
}

func init() {
	for _, p := range []string{"C01", "C02", "C03"} {
		p := p
		checks[p] = func() { policyCheck(p) }
	}
}
