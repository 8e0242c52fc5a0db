//go:build go1.21

package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// More of the started process: many requests over one connection that wait for a provider, and requests of every size.

// procSite is a started adapter with a JWT protected service (sj, provider l), one protected by OIDC (so, provider l)
// and one protected by another provider (sf).
type procSite struct {
	*cluster
	p    *proc
	l    *lib.Lab
	want string
}

func newProcSite(dir string, args ...string) (*procSite, string) {
	k := &procSite{cluster: newCluster(dir), l: lib.NewLab()}
	k.l.Secrets["cid"] = "secret-cid"
	for n, u := range map[string]string{"j": k.l.URL("jwks"), "f": cfgA.URL("jwks")} {
		k.put(lib.JwtConfig("ns", n, u), v1.JWTCONFIG, n)
		k.put(lib.Policy("ns", "p"+n, "s"+n, lib.Path("", "/", "ALL", lib.Pol("jwt", n))), v1.POLICY, "p"+n)
	}
	o := lib.OidcConfig("ns", "o", "cid", k.l.URL("disc"))
	o.Spec.ClientSecret = "secret-cid"
	k.put(o, v1.OIDCCONFIG, "o")
	pp := lib.Pol("oidc", "o")
	pp.Rules = []ruleT{{Claim: "aud", Match: "ANY", Source: "id_token", Values: []string{"cid"}}}
	k.put(lib.Policy("ns", "po", "so", lib.Path("", "/", "ALL", pp)), v1.POLICY, "po")
	k.p = k.start(args...)
	if !k.p.up() {
		return k, "the adapter does not answer: " + k.p.out.last()
	}
	if !k.settleBy(k.p.do, 1) {
		return k, "40 seconds after its start the adapter does not know the objects of the cluster: " + k.p.out.last()
	}
	return k, ""
}

func (k *procSite) end() {
	if k.p != nil {
		k.p.stop()
	}
	k.l.Close()
	k.close()
}

func (k *procSite) get(svc, auth, cookie string) lib.Req {
	r := lib.Req{NS: "ns", Svc: svc, Method: "GET", Path: "/p", Cookies: cookie}
	if auth != "" {
		r.Auth = "Bearer " + auth
	}
	return r
}

// callback of a visit that has just begun
func (k *procSite) visit(user string) (lib.Req, string) {
	b := lib.NewBrowser()
	res := k.p.do(k.get("so", "", ""))
	a, err := lib.ParseAuth(res.Location)
	if res.Kind != lib.KRedirect || err != nil {
		return lib.Req{}, "a first visit is answered " + res.String()
	}
	b.Apply(res)
	r := k.get("so", "", b.Cookies())
	r.Path, r.Code, r.State = "/p/oidc/callback", k.l.Code(user, "cid", a.Redirect), a.State
	return r, ""
}

func (k *procSite) login(user string) (cookie, bad string) {
	r, bad := k.visit(user)
	if bad != "" {
		return "", bad
	}
	res := k.p.do(r)
	n, v := res.Cookie()
	if res.Kind != lib.KRedirect || v == "" {
		return "", "a callback is answered " + res.String()
	}
	return n + "=" + v, ""
}

// procHang lets n requests wait for an endpoint of provider l, all over the same connection.
func procHang(dir, ep string, n int) string {
	k, bad := newProcSite(dir)
	defer k.end()
	if bad != "" {
		return bad
	}
	var rs []lib.Req
	opaque := ep == "userinfo"
	k.l.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		if opaque && strings.HasPrefix(g.User, "h") {
			t.Access = "opaque-" + g.User
		}
		k.l.Minted[len(k.l.Minted)-1] = t
		return t.Body()
	}
	cookie, bad := k.login("z")
	if bad != "" {
		return bad
	}
	for i := 0; i < n; i++ {
		switch ep {
		case "jwks":
			rs = append(rs, k.get("sj", lib.Sign(fmt.Sprintf(`{"alg":"RS256","kid":"unknown-%d"}`, i), lib.JSON(lib.Std("x", "y")), "RS256", lib.Key("b")), ""))
		case "token":
			r, bad := k.visit(fmt.Sprint("h", i))
			if bad != "" {
				return bad
			}
			rs = append(rs, r)
		case "userinfo":
			c, bad := k.login(fmt.Sprint("h", i))
			if bad != "" {
				return bad
			}
			rs = append(rs, k.get("so", "", c))
		}
	}
	release := make(chan struct{})
	var arrived, ended, let int32
	k.l.Fault = func(e string, r *lib.Rec) *lib.Answer {
		if e != ep {
			return nil
		}
		atomic.AddInt32(&arrived, 1)
		<-release
		return &lib.Answer{Err: lib.ErrTimeout}
	}
	var wg sync.WaitGroup
	q := *k.p
	q.limit = 30 * time.Second
	for _, r := range rs {
		wg.Add(1)
		go func(m *authnz.HandleAuthnZRequest) {
			defer wg.Done()
			if res := q.call(m, true); res.Kind == lib.KOK {
				atomic.AddInt32(&let, 1)
			}
			atomic.AddInt32(&ended, 1)
		}(r.Msg())
	}
	atOnce := n
	if ep == "jwks" {
		atOnce = 1
	}
	for i := 0; i < 150 && int(atomic.LoadInt32(&arrived)) < atOnce; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	late := func() bool { return atomic.LoadInt32(&ended) > 0 }
	judge := func(name string, r lib.Req, want string) {
		res := q.call(r.Msg(), true)
		if bad != "" {
			return
		}
		if late() {
			bad = fmt.Sprintf("while %d requests wait for the %s endpoint, %s is not answered", n, ep, name)
		} else if res.Kind != want {
			bad = fmt.Sprintf("while %d requests wait for the %s endpoint, %s is answered %v", n, ep, name, res)
		}
	}
	if !late() {
		judge("a request nothing protects", k.get("open", "", ""), lib.KOK)
		judge("a request with a token of another provider", k.get("sf", cfgToken["a"], ""), lib.KOK)
		judge("a request without token", k.get("sf", "", ""), lib.KDeny)
		judge("a request with a known key", k.get("sj", lib.JWT("a", lib.Std("u", "x")), ""), lib.KOK)
		judge("a request of a session", k.get("so", "", cookie), lib.KOK)
		judge("a first visit", k.get("so", "", ""), lib.KRedirect)
	}
	close(release)
	wg.Wait()
	k.l.Fault = nil
	if bad == "" && let > 0 {
		bad = fmt.Sprintf("%d of %d requests pass whose %s endpoint gave no answer", let, n, ep)
	}
	if k.p.ended() {
		return "the adapter ends: " + k.p.out.last()
	}
	if bad == "" {
		if res := k.p.do(k.get("so", "", cookie)); res.Kind != lib.KOK {
			bad = "afterwards a request of a session is answered " + res.String()
		}
	}
	return bad
}

// procSizes sends requests of growing size: the decision is that of small ones.
func procSizes(c *lib.Check, dir string) string {
	k, bad := newProcSite(dir)
	defer k.end()
	if bad != "" {
		return bad
	}
	cookie, bad := k.login("z")
	if bad != "" {
		return bad
	}
	var sizes []int
	for n := 0; n <= c.Pick(20, 21); n++ {
		sizes = append(sizes, 1<<n)
		if n > 8 {
			sizes = append(sizes, 3<<(n-1), 1<<n-200)
		}
	}
	for n := 60000; n < 70000; n += c.Pick(500, 100) { // the limit of Envoy's headers
		sizes = append(sizes, n)
	}
	type req struct {
		name string
		f    func(n int) lib.Req
		want string
	}
	long := func(r lib.Req, n int) lib.Req { r.Path = "/p/" + strings.Repeat("a", n); return r }
	reqs := []req{
		{"a long valid token", func(n int) lib.Req {
			return k.get("sf", lib.JWT("a", lib.Std("u", "x").With("pad", strings.Repeat("x", n*3/4))), "")
		}, lib.KOK},
		{"a long valid token and a long ID token", func(n int) lib.Req {
			t := lib.JWT("a", lib.Std("u", "x").With("pad", strings.Repeat("x", n*3/8)))
			return k.get("sf", t+" "+t, "")
		}, lib.KOK},
		{"a long token of an unknown key", func(n int) lib.Req {
			return k.get("sf", lib.JWT("b", lib.Std("u", "x").With("pad", strings.Repeat("x", n*3/4))), "")
		}, lib.KDeny},
		{"a valid token and long cookies", func(n int) lib.Req { return k.get("sf", cfgToken["a"], "pad="+strings.Repeat("x", n)) }, lib.KOK},
		{"a session after a long cookie", func(n int) lib.Req { return k.get("so", "", "pad="+strings.Repeat("x", n)+"; "+cookie) }, lib.KOK},
		{"a session before a long cookie", func(n int) lib.Req { return k.get("so", "", cookie+"; pad="+strings.Repeat("x", n)) }, lib.KOK},
		{"a session and a long authorization", func(n int) lib.Req { return k.get("so", strings.Repeat("x", n), cookie) }, lib.KOK},
		{"a long path and a valid token", func(n int) lib.Req { return long(k.get("sf", cfgToken["a"], ""), n) }, lib.KOK},
		{"a long path without token", func(n int) lib.Req { return long(k.get("sf", "", ""), n) }, lib.KDeny},
		{"a long path nothing protects", func(n int) lib.Req { return long(k.get("open", "", ""), n) }, lib.KOK},
		{"a long path of a session", func(n int) lib.Req { return long(k.get("so", "", cookie), n) }, lib.KOK},
		{"a long first visit", func(n int) lib.Req { return long(k.get("so", "", ""), n) }, lib.KRedirect},
		{"a first visit with long cookies", func(n int) lib.Req { return k.get("so", "", "pad="+strings.Repeat("x", n)) }, lib.KRedirect},
	}
	var mu sync.Mutex
	lib.Parallel(len(sizes)*len(reqs), runtime.NumCPU(), func(i int) {
		n, r := sizes[i%len(sizes)], reqs[i/len(sizes)]
		c.Count("process_sizes", 1)
		if res := k.p.do(r.f(n)); res.Kind != r.want {
			mu.Lock()
			if bad == "" {
				bad = fmt.Sprintf("%s (%d bytes) is answered %.300v, not %s", r.name, n, res, r.want)
			}
			mu.Unlock()
		}
	})
	if k.p.ended() {
		return "the adapter ends: " + k.p.out.last()
	}
	return bad
}

// procHangs adds the cases of procHang.
func procHangs(c *lib.Check, dir string, add func(name string, show map[string]interface{}, f func() (string, bool))) {
	counts := []int{1, 2, 3, 5, 9, 17, 33, 65, 101, 129, 257}
	if c.Thorough() {
		counts = append(counts, 4, 6, 7, 8, 10, 11, 12, 16, 20, 32, 50, 64, 100, 128, 200, 250, 256, 300, 513)
	}
	for _, ep := range []string{"jwks", "token", "userinfo"} {
		for _, n := range counts {
			ep, n := ep, n
			add("waiting requests", map[string]interface{}{"endpoint": ep, "requests": n}, func() (string, bool) { return procHang(dir, ep, n), true })
		}
	}
}

func hangingProcess(c *lib.Check) {
	cfgInit()
	dir, clean := procDir()
	defer clean()
	var jobs []procJob
	procHangs(c, dir, func(name string, show map[string]interface{}, f func() (string, bool)) { jobs = append(jobs, procJob{name, show, f}) })
	runJobs(c, jobs)
}

// procLogs looks at what a started adapter prints at its ordinary levels, its requests and its answers, while users
// and API clients come by, providers fail and configurations change.
func procLogs(dir, method string, tokens string, args []string) (bad string, texts int) {
	g := lib.NewGuard()
	lib.Under(g, func() {
		k, b := newProcSite(dir, args...)
		defer k.end()
		if b != "" {
			panic(lib.HarnessError{Msg: b})
		}
		k.sec.mu.Lock()
		if x := k.sec.secrets[lib.CookieSecret]; x != nil {
			for _, d := range x.Data {
				g.Keep(lib.SKey, string(d), "")
			}
		}
		k.sec.mu.Unlock()
		o := lib.OidcConfig("ns", "o", "cid", k.l.URL("disc"))
		o.Spec.AuthMethod, o.Spec.ClientSecret = method, "secret-cid"
		k.put(o.DeepCopy(), v1.OIDCCONFIG, "o")
		k.settleBy(k.p.do, 2)
		life := time.Hour
		k.l.Shape = func(kind string, gr *lib.Grant, t lib.TokenSet) map[string]interface{} {
			std := lib.Std(gr.User, gr.Client)
			if kind == "code" {
				std = std.With("exp", lib.In(life))
			}
			t.Access, t.ID = lib.JWT("a", std), lib.JWT("a", std)
			if tokens == "opaque" {
				t.Access = "opaque-token-of-" + gr.User + kind
			}
			k.l.Minted[len(k.l.Minted)-1] = t
			return t.Body()
		}
		session := func(c string) {
			for _, sv := range []string{"so", "sj", "open"} {
				k.p.do(k.get(sv, "", c))
			}
		}
		flows := func() {
			for _, t := range []string{lib.JWT("a", lib.Std("u", "x")), lib.JWT("b", lib.Std("u", "x")), lib.JWT("a", lib.Std("u", "x").With("exp", lib.In(-time.Hour))), "opaque-token-of-an-api-client", lib.JWT("a", lib.Std("u", "x"))[:200]} {
				for _, form := range []string{t, t + " " + t, "x " + t} {
					k.p.do(k.get("sj", form, ""))
				}
			}
			r, b := k.visit("u")
			if b != "" {
				return
			}
			wrong := r
			wrong.State = "another-state-1234"
			k.p.do(wrong)
			wrong = r
			wrong.Code = "no-such-code-1234"
			k.p.do(wrong)
			res := k.p.do(r)
			k.p.do(r)
			n, v := res.Cookie()
			if v == "" {
				return
			}
			c := n + "=" + v
			session(c)
			m := k.get("so", "", c).Msg()
			m.Instance.Target = nil
			k.p.call(m, true)
			out := k.get("so", "", c)
			out.Path = "/p/oidc/logout"
			defer func() { k.p.do(out); session(c) }()
			if life < time.Minute {
				time.Sleep(life + 100*time.Millisecond)
				session(c)
			}
		}
		flows()
		life = 1100 * time.Millisecond
		flows()
		life = time.Hour
		for _, ep := range upEndpoints {
			for _, a := range []*lib.Answer{{Err: lib.ErrNet}, {Status: 500, Body: "failed"}, {Status: 200, Body: "{"}, {Status: 400, Body: `{"error":"invalid_request"}`}} {
				ep, a := ep, a
				k.l.Fault = func(e string, r *lib.Rec) *lib.Answer {
					if e == ep {
						return a
					}
					return nil
				}
				flows()
				if ep == "disc" || ep == "jwks" {
					k.put(o.DeepCopy(), v1.OIDCCONFIG, "o")
					k.put(lib.JwtConfig("ns", "j", k.l.URL("jwks")), v1.JWTCONFIG, "j")
					k.settleBy(k.p.do, 3)
					flows()
				}
				k.l.Fault = nil
			}
		}
		k.sec.mu.Lock()
		k.sec.down = true
		k.sec.mu.Unlock()
		o.Spec.ClientSecret = "another-client-secret"
		g.Keep(lib.SSecret, o.Spec.ClientSecret, "cid")
		o.Spec.ClientSecretRef.Name, o.Spec.ClientSecretRef.Key = "ref", "key"
		k.put(o.DeepCopy(), v1.OIDCCONFIG, "o")
		k.settleBy(k.p.do, 4)
		flows()
		k.change(kobj{v1.OIDCCONFIG, "o", ""})
		k.settleBy(k.p.do, 5)
		flows()
		_ = k.p.cmd.Process.Signal(syscall.SIGTERM)
		select {
		case <-k.p.done:
		case <-time.After(2 * time.Second):
		}
		g.LogText(k.p.out.all())
	})
	return g.Leak(), g.Checked
}

func processLogs(c *lib.Check) {
	cfgInit()
	dir, clean := procDir()
	defer clean()
	var jobs []procJob
	for _, method := range []string{"", "client_secret_basic", "client_secret_post"} {
		for _, tokens := range []string{"jwt", "opaque"} {
			for _, args := range [][]string{nil, {"--json"}, {"--json", "--level=1"}, {"--level=0"}} {
				method, tokens, args := method, tokens, args
				jobs = append(jobs, procJob{"printed by a process", map[string]interface{}{"authentication": method, "access tokens": tokens, "arguments": args}, func() (string, bool) {
					bad, n := procLogs(dir, method, tokens, args)
					c.Count("texts_examined", n)
					return bad, true
				}})
			}
		}
	}
	runJobs(c, jobs)
}
