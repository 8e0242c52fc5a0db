//go:build go1.21

package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// C24, by number: n operations wait for upstream answers at the same time, and everything else goes on. Every n
// up to a bound that no schedule exploration reaches: limits on connections, workers or pending work show here.
// The operations are real goroutines; the order of events, not their duration, is judged.

type hangWorld struct {
	*stage
	far     *lib.Lab // another provider, whose every answer hangs once block is set
	calm    *lib.Lab // a provider that answers always, after having been unreachable at first
	block   func(ep string, r *lib.Rec) bool
	release chan struct{}
	arrived int32
	ended   chan struct{} // closed when the first hanging operation returns
	endOnce sync.Once
	cookie  string // of a session nothing hangs for
	wg      sync.WaitGroup
	mu      sync.Mutex
	results []string
}

func newHangWorld() *hangWorld {
	h := &hangWorld{stage: newStage(stageCfg{}), far: lib.NewLab(), calm: lib.NewLab(), release: make(chan struct{}), ended: make(chan struct{})}
	h.W.Set(lib.JwtConfig("ns", "j", h.URL("jwks")))
	h.W.Set(lib.Policy("ns", "pj", "sj", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
	h.calm.Fault = func(ep string, r *lib.Rec) *lib.Answer { return &lib.Answer{Err: lib.ErrNet} }
	h.W.Set(lib.JwtConfig("ns", "jc", h.calm.URL("jwks")))
	h.W.Set(lib.Policy("ns", "pjc", "sjc", lib.Path("", "/", "ALL", lib.Pol("jwt", "jc"))))
	h.W.Set(lib.OidcConfig("ns", "oc", "calm", h.calm.URL("disc")))
	h.W.Set(lib.Policy("ns", "poc", "soc", lib.Path("", "/", "ALL", lib.Pol("oidc", "oc"))))
	h.calm.Fault = nil
	fault := func(ep string, r *lib.Rec) *lib.Answer {
		if h.block == nil || !h.block(ep, r) {
			return nil
		}
		atomic.AddInt32(&h.arrived, 1)
		<-h.release
		return &lib.Answer{Err: lib.ErrTimeout}
	}
	h.Fault, h.far.Fault = fault, fault
	return h
}

func (h *hangWorld) close() { h.stage.Close(); h.far.Close(); h.calm.Close() }

// hang starts an operation whose upstream call is not answered.
func (h *hangWorld) hang(f func() lib.Res) {
	h.wg.Add(1)
	go func() {
		defer h.wg.Done()
		r := f()
		h.endOnce.Do(func() { close(h.ended) })
		if r.Kind == lib.KOK && r.Msg != "event" || r.Kind == lib.KPanic {
			h.mu.Lock()
			h.results = append(h.results, "an operation whose upstream call got no answer was answered "+r.String())
			h.mu.Unlock()
		}
	}()
}

func (h *hangWorld) get(svc, cookie string) lib.Req {
	return lib.Req{NS: "ns", Svc: svc, Method: "GET", Path: "/p", Cookies: cookie}
}

type hangKind struct {
	name  string
	calls func(n int) int // upstream calls to wait for
	f     func(h *hangWorld, n int)
	more  []hangBy // what goes on besides everything else
}

type hangBy struct {
	name string
	f    func(h *hangWorld) string
}

func all(n int) int { return n }
func one(int) int   { return 1 }

var hangKinds = []hangKind{
	{"refreshes", all, func(h *hangWorld, n int) {
		old := map[string]bool{}
		var ck []string
		for i := 0; i < n; i++ {
			nm, v, _ := h.login([]string{"s", "s2"}[i%2], fmt.Sprintf("h%d", i), []string{"cid", "other"}[i%2])
			old[h.Last().Refresh] = true
			ck = append(ck, nm+"="+v)
		}
		h.Offset = 90 * time.Minute
		h.block = func(ep string, r *lib.Rec) bool { return ep == "token" && old[r.Form.Get("refresh_token")] }
		for i := range ck {
			r := h.get([]string{"s", "s2"}[i%2], ck[i])
			h.hang(func() lib.Res { return h.Do(r) })
		}
	}, nil},
	{"requests of one session that is being refreshed", one, func(h *hangWorld, n int) {
		nm, v, _ := h.login("s", "h", "cid")
		old := h.Last().Refresh
		h.Offset = 90 * time.Minute
		h.block = func(ep string, r *lib.Rec) bool { return ep == "token" && r.Form.Get("refresh_token") == old }
		for i := 0; i < n; i++ {
			h.hang(func() lib.Res { return h.Do(h.get("s", nm+"="+v)) })
		}
	}, nil},
	{"code exchanges", all, func(h *hangWorld, n int) {
		codes := map[string]bool{}
		var rs []lib.Req
		for i := 0; i < n; i++ {
			svc, client := []string{"s", "s2"}[i%2], []string{"cid", "other"}[i%2]
			b := lib.NewBrowser()
			res := h.Do(h.get(svc, ""))
			a, _ := lib.ParseAuth(res.Location)
			b.Apply(res)
			r := h.get(svc, b.Cookies())
			r.Path, r.Code, r.State = "/p/oidc/callback", h.Code(fmt.Sprintf("h%d", i), client, a.Redirect), a.State
			codes[r.Code] = true
			rs = append(rs, r)
		}
		h.block = func(ep string, r *lib.Rec) bool { return ep == "token" && codes[r.Form.Get("code")] }
		for _, r := range rs {
			r := r
			h.hang(func() lib.Res { return h.Do(r) })
		}
	}, nil},
	{"userinfo requests", all, func(h *hangWorld, n int) {
		h.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			t.Access = "opaque-" + g.User
			return t.Body()
		}
		var ck []string
		for i := 0; i < n; i++ {
			nm, v, _ := h.login("s", fmt.Sprintf("h%d", i), "cid")
			ck = append(ck, nm+"="+v)
		}
		h.Shape = nil
		h.block = func(ep string, r *lib.Rec) bool { return ep == "userinfo" && strings.Contains(r.Header.Get("Authorization"), "opaque-h") }
		for _, k := range ck {
			r := h.get("s", k)
			h.hang(func() lib.Res { return h.Do(r) })
		}
	}, nil},
	{"key lookups of as many configurations", all, func(h *hangWorld, n int) {
		for i := 0; i < n; i++ {
			h.W.Set(lib.JwtConfig("ns", fmt.Sprintf("h%d", i), h.far.URL("jwks")+fmt.Sprint("-", i)))
			h.W.Set(lib.Policy("ns", fmt.Sprintf("ph%d", i), fmt.Sprintf("sh%d", i), lib.Path("", "/", "ALL", lib.Pol("jwt", fmt.Sprintf("h%d", i)))))
		}
		h.block = func(ep string, r *lib.Rec) bool { return strings.Contains(r.URL, h.far.ID) }
		tok := lib.JWT("b", lib.Std("x", "y"))
		for i := 0; i < n; i++ {
			r := h.get(fmt.Sprintf("sh%d", i), "")
			r.Auth = "Bearer " + tok
			h.hang(func() lib.Res { return h.Do(r) })
		}
	}, nil},
	{"key lookups of one configuration", one, func(h *hangWorld, n int) {
		h.block = func(ep string, r *lib.Rec) bool { return ep == "jwks" }
		for i := 0; i < n; i++ {
			r := h.get("sj", "")
			r.Auth = "Bearer " + lib.Sign(fmt.Sprintf(`{"alg":"RS256","kid":"unknown-%d"}`, i), lib.JSON(lib.Std("x", "y")), "RS256", lib.Key("b"))
			h.hang(func() lib.Res { return h.Do(r) })
		}
	}, nil},
	{"discoveries", all, func(h *hangWorld, n int) {
		f := h.far.Fault
		h.far.Fault = func(ep string, r *lib.Rec) *lib.Answer { return &lib.Answer{Err: lib.ErrNet} }
		for i := 0; i < n; i++ {
			h.W.Set(lib.OidcConfig("ns", fmt.Sprintf("h%d", i), fmt.Sprintf("hc%d", i), h.far.URL("disc")+fmt.Sprint("-", i)))
			h.W.Set(lib.Policy("ns", fmt.Sprintf("ph%d", i), fmt.Sprintf("sh%d", i), lib.Path("", "/", "ALL", lib.Pol("oidc", fmt.Sprintf("h%d", i)))))
		}
		h.far.Fault = f
		h.block = func(ep string, r *lib.Rec) bool { return strings.Contains(r.URL, h.far.ID) }
		for i := 0; i < n; i++ {
			r := h.get(fmt.Sprintf("sh%d", i), "")
			h.hang(func() lib.Res { return h.Do(r) })
		}
	}, nil},
	{"new configurations", all, func(h *hangWorld, n int) {
		h.block = func(ep string, r *lib.Rec) bool { return strings.Contains(r.URL, h.far.ID) }
		for i := 0; i < n; i++ {
			i := i
			h.hang(func() lib.Res {
				h.W.Set(lib.JwtConfig("ns", fmt.Sprintf("h%d", i), h.far.URL("jwks")+fmt.Sprint("-", i)))
				return lib.Res{Kind: lib.KOK, Msg: "event"}
			})
		}
	}, nil},
	{"requests that need the keys of a provider which has been unreachable when its configuration was updated", one, func(h *hangWorld, n int) {
		cfg := lib.OidcConfig("ns", "rec", "rc", h.far.URL("disc"))
		h.far.Secrets["rc"] = "secret-rc"
		h.W.Set(cfg)
		h.W.Set(lib.Policy("ns", "prec", "sr", lib.Path("", "/", "ALL", lib.Pol("oidc", "rec"))))
		var ck []string
		for i := 0; i < n+1; i++ {
			b := lib.NewBrowser()
			res := h.far.DoAt(h.W, h.get("sr", ""))
			a, _ := lib.ParseAuth(res.Location)
			b.Apply(res)
			r := h.get("sr", b.Cookies())
			r.Path, r.Code, r.State = "/p/oidc/callback", h.far.Code(fmt.Sprintf("h%d", i), "rc", a.Redirect), a.State
			b.Apply(h.far.DoAt(h.W, r))
			ck = append(ck, b.Cookies())
		}
		f := h.far.Fault
		h.far.Fault = func(ep string, r *lib.Rec) *lib.Answer { return &lib.Answer{Err: lib.ErrNet} }
		h.W.Set(cfg)
		h.far.Fault = f
		h.cookie = ck[n]
		h.block = func(ep string, r *lib.Rec) bool { return ep == "jwks" && strings.Contains(r.URL, h.far.ID) }
		for i := 0; i < n; i++ {
			r := h.get("sr", ck[i])
			h.hang(func() lib.Res { return h.far.DoAt(h.W, r) })
		}
	}, []hangBy{
		{"a first visit at the provider", func(h *hangWorld) string {
			x := h.far.DoAt(h.W, h.get("sr", ""))
			if _, err := lib.ParseAuth(x.Location); x.Kind != lib.KRedirect || err != nil || !strings.HasPrefix(x.Location, h.far.URL("auth")) {
				return "got " + x.String()
			}
			return ""
		}},
		{"a visit with an unknown session at the provider", func(h *hangWorld) string {
			x := h.far.DoAt(h.W, h.get("sr", strings.SplitN(h.cookie, "=", 2)[0]+"=unknown"))
			if _, err := lib.ParseAuth(x.Location); x.Kind != lib.KRedirect || err != nil || !strings.HasPrefix(x.Location, h.far.URL("auth")) {
				return "got " + x.String()
			}
			return ""
		}},
		{"a logout at the provider", func(h *hangWorld) string {
			r := h.get("sr", h.cookie)
			r.Path = "/p/oidc/logout"
			if x := h.far.DoAt(h.W, r); x.Kind != lib.KRedirect || !lib.Expired(x.SetCookie) {
				return "got " + x.String()
			}
			return ""
		}},
	}},
}

// hangCase runs n hanging operations of a kind and everything else beside them. It reports how many bystanders ran.
func hangCase(k hangKind, n int) (bad string, ran int) {
	h := newHangWorld()
	defer h.close()
	s := h.stage
	cookie := func(svc, user, client string) (string, lib.TokenSet) {
		nm, v, b := s.login(svc, user, client)
		if b != "" && bad == "" {
			bad = "before anything hangs: " + b
		}
		return nm + "=" + v, s.Last()
	}
	// sessions of the bystanders: one to refresh, made early, and the others at the time of the hanging calls
	zc, _ := cookie("s", "z", "cid")
	s.Offset = 90 * time.Minute
	vc, vt := cookie("s", "v", "cid")
	wc, wt := cookie("s2", "w", "other")
	lc, _ := cookie("s", "l", "cid")
	s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		t.Access = "opaque-" + g.User
		s.Minted[len(s.Minted)-1] = t
		return t.Body()
	}
	oc, ot := cookie("s", "o", "cid")
	s.Shape = nil
	s.Offset = 0
	if bad != "" {
		return bad, 0
	}
	k.f(h, n)
	atOnce := k.calls(n)
	for i := 0; i < 400 && int(atomic.LoadInt32(&h.arrived)) < atOnce; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	s.Offset = 90 * time.Minute
	if atomic.LoadInt32(&h.arrived) == 0 {
		return "", 0
	}
	pass := func(c string, svc string, t func() lib.TokenSet) func() string {
		return func() string {
			if r := s.Do(h.get(svc, c)); r.Kind != lib.KOK || r.OutAuth != t().Bearer() {
				return "expected to pass, got " + r.String()
			}
			return ""
		}
	}
	tok := lib.JWT("a", lib.Std("x", "y"))
	jwt := func(auth, want string) func() string {
		return func() string {
			r := h.get("sj", "")
			r.Auth = auth
			if x := s.Do(r); x.Kind != want {
				return "expected " + want + ", got " + x.String()
			}
			return ""
		}
	}
	type by struct {
		name string
		f    func() string
	}
	l := []by{
		{"a request of another session", pass(vc, "s", func() lib.TokenSet { return vt })},
		{"a request of a session of another client", pass(wc, "s2", func() lib.TokenSet { return wt })},
		{"a request of a session with an opaque access token", pass(oc, "s", func() lib.TokenSet { return ot })},
		{"a request with a known key", jwt("Bearer "+tok, lib.KOK)},
		{"a request without token", jwt("", lib.KDeny)},
		{"a request nothing protects", func() string {
			if r := s.Do(h.get("open", "")); r.Kind != lib.KOK {
				return "got " + r.String()
			}
			return ""
		}},
		{"a first visit", func() string {
			r := s.Do(h.get("s", ""))
			if _, err := lib.ParseAuth(r.Location); r.Kind != lib.KRedirect || err != nil {
				return "got " + r.String()
			}
			return ""
		}},
		{"a login", func() string {
			_, _, b := s.login("s", "y", "cid")
			return b
		}},
		{"a refresh of another session", pass(zc, "s", s.Last)},
		{"a logout", func() string {
			r := h.get("s", lc)
			r.Path = "/p/oidc/logout"
			if x := s.Do(r); x.Kind != lib.KRedirect || !lib.Expired(x.SetCookie) {
				return "got " + x.String()
			}
			return ""
		}},
		{"a key lookup of another configuration", func() string {
			r := h.get("sjc", "")
			r.Auth = "Bearer " + tok
			if x := s.Do(r); x.Kind != lib.KOK {
				return "got " + x.String()
			}
			return ""
		}},
		{"the discovery of another provider", func() string {
			x := s.Do(h.get("soc", ""))
			if _, err := lib.ParseAuth(x.Location); x.Kind != lib.KRedirect || err != nil || !strings.HasPrefix(x.Location, h.calm.URL("auth")) {
				return "got " + x.String()
			}
			return ""
		}},
		{"a policy event", func() string {
			h.W.Set(lib.Policy("ns", "new", "open2", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
			if x := s.Do(h.get("open2", "")); x.Kind != lib.KDeny {
				return "the new policy does not apply: " + x.String()
			}
			h.W.Del(v1.POLICY, "ns", "new")
			return ""
		}},
		{"a new configuration", func() string {
			h.W.Set(lib.OidcConfig("ns", "fresh", "cid", s.URL("disc")))
			h.W.Set(lib.JwtConfig("ns", "fresh", s.URL("other-path")))
			return ""
		}},
	}
	for _, m := range k.more {
		m := m
		l = append([]by{{m.name, func() string { return m.f(h) }}}, l...)
	}
	for _, b := range l {
		if strings.HasPrefix(k.name, "key lookups of one") && b.name == "a new configuration" {
			continue
		}
		done := make(chan string, 1)
		f := b.f
		go func() { done <- f() }()
		waits := false
		select {
		case what := <-done:
			if what != "" {
				bad = b.name + ": " + what
			}
		case <-h.ended:
			select {
			case what := <-done:
				if what != "" {
					bad = b.name + ": " + what
				}
			case <-time.After(200 * time.Millisecond):
				waits = true
			}
		case <-time.After(15 * time.Second):
			waits = true
		}
		if waits && bad == "" {
			bad = b.name + " waits for the hanging calls"
		}
		ran++
		if bad != "" {
			break
		}
	}
	close(h.release)
	over := make(chan struct{})
	go func() { h.wg.Wait(); close(over) }()
	select {
	case <-over:
	case <-time.After(30 * time.Second):
		if bad == "" {
			bad = "the hanging operations do not end when their calls do"
		}
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.results) > 0 && bad == "" {
		bad = h.results[0]
	}
	return
}

func manyHanging(c *lib.Check) {
	counts := []int{1, 2, 3, 5, 8, 11, 17, 33, 65, 101}
	if c.Thorough() {
		counts = append(counts, 4, 6, 7, 9, 10, 12, 16, 25, 32, 50, 64, 100, 129, 257, 513, 1025)
	}
	lib.Parallel(len(counts)*len(hangKinds), runtime.NumCPU(), func(i int) {
		if c.Stop() {
			return
		}
		k, n := hangKinds[i%len(hangKinds)], counts[i/len(hangKinds)]
		bad, ran := hangCase(k, n)
		c.Count("states", ran)
		c.Count("transitions", n+ran)
		c.Count("traces_validated_against_impl", 1)
		c.Count("hanging_cases", 1)
		c.Outcome(fmt.Sprint(k.name, " ran ", ran > 0))
		if bad != "" {
			c.Violation("hanging", fmt.Sprintf("%d %s hang: %s", n, k.name, bad), map[string]interface{}{"kind": k.name, "number": n, "what": bad},
				func() bool { b, _ := hangCase(k, n); return b != "" })
		}
	})
	c.Cov["hanging_numbers"] = counts
}
