W = "adapter/strategy/web/web.go"
NW = "adapter/networking/networking.go"
AS = "adapter/authserver/authserver.go"
KS = "adapter/authserver/keyset/keyset.go"
HA = "adapter/policy/handler/handler.go"

LATE = '''
// within fails unless f ends while the hanging calls still hang.
func within(t *testing.T, what string, f func() bool) {
	done := make(chan bool, 1)
	go func() { done <- f() }()
	select {
	case ok := <-done:
		if !ok {
			t.Fatal(what, "failed")
		}
	case <-time.After(3 * time.Second):
		t.Fatal(what, "waits for calls that concern somebody else")
	}
}
'''
TOKENS = LATE + '''
func hangingLogins(t *testing.T, n int) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "cid"), pol("p", "svc", prefix("/a", "ALL", use("oidc", "o"))))
	stop := make(chan bool)
	var hanging sync.WaitGroup
	hanging.Add(n)
	w.token = func(f url.Values, r *http.Request) (int, m) {
		if f.Get("code") == "slow" {
			hanging.Done()
			<-stop
		}
		tok := w.jwt("a", std("u", "cid", time.Hour))
		return 200, m{"access_token": tok, "id_token": tok}
	}
	for i := 0; i < n; i++ {
		cookie, state := w.begin("svc", "/a")
		go w.send(demoReq{path: "/a/oidc/callback", cookie: cookie, code: "slow", state: state})
	}
	waited := make(chan bool)
	go func() { hanging.Wait(); close(waited) }()
	select {
	case <-waited:
	case <-time.After(time.Second):
	}
	defer close(stop)
	within(t, "the login of another user", func() bool { return w.login("svc", "/a", "fast") != "" })
}
'''

seed(id="c24-connection-limit", property="C24",
 edits=[(NW, '''		&http.Client{
			Timeout: defaultTimeout,
		},''', '''		&http.Client{
			Timeout: defaultTimeout,
			Transport: &http.Transport{
				Proxy:               http.ProxyFromEnvironment,
				MaxIdleConnsPerHost: 10,
				MaxConnsPerHost:     10,
				IdleConnTimeout:     90 * time.Second,
			},
		},''')],
 needs="ten calls to one identity provider host that are not answered, and an eleventh that would be",
 breaks="a login of another user waits until one of ten hanging calls ends, and fails with its own timeout",
 demo=TOKENS + '''
func TestDemo(t *testing.T) { hangingLogins(t, 10) }
''')

seed(id="c24-one-token-request", property="C24",
 edits=[(AS, '''	tokenResponse := new(TokenResponse)
''', '''	s.tokenMutex.Lock() // authorization codes and refresh tokens may be used once: one request at a time
	defer s.tokenMutex.Unlock()
	tokenResponse := new(TokenResponse)
'''), (AS, '''	initialized  bool
}''', '''	initialized  bool
	tokenMutex   sync.Mutex
}''')],
 needs="a token request that hangs while another user of the same configuration logs in",
 breaks="one unanswered token request stops every login and refresh of the configuration",
 demo=TOKENS + '''
func TestDemo(t *testing.T) { hangingLogins(t, 1) }
''')

seed(id="c24-one-event", property="C24",
 edits=[(HA, '''	if crdhandler != nil {
		crdhandler.HandleAddUpdateEvent()
	}''', '''	if crdhandler != nil {
		c.events.Lock() // events of different kinds arrive on different threads
		defer c.events.Unlock()
		crdhandler.HandleAddUpdateEvent()
	}'''), (HA, '''	kubeClient kubernetes.Interface
}

// //''', '''	kubeClient kubernetes.Interface
	events     sync.Mutex
}

// //'''), (HA, '''import (
''', '''import (
	"sync"

''')],
 needs="a JwtConfig whose key set hangs while a policy is created",
 breaks="a new policy is not enforced until the fetch of an unrelated configuration ends",
 demo=LATE + '''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"))
	stop := make(chan bool)
	arrived := make(chan bool, 1)
	slow := httptest.NewServer(http.HandlerFunc(func(http.ResponseWriter, *http.Request) { arrived <- true; <-stop }))
	defer close(stop)
	other := w.jwtConfig("slow")
	other.Spec.JwksURL = slow.URL
	go w.set(other)
	<-arrived
	within(t, "a policy event", func() bool {
		w.set(pol("p", "svc", prefix("/a", "ALL", use("jwt", "j"))))
		return !w.send(demoReq{path: "/a"}).ok
	})
}
''')

seed(id="c24-one-key-request", property="C24",
 edits=[(KS, '''////////////////// constructor''', '''// fetching limits the load on identity providers to one key request at a time
var fetching = make(chan struct{}, 1)

////////////////// constructor'''), (KS, '''	_, err, _ := s.requestGroup.Do(s.publicKeyURL, s.updateKeys)
''', '''	_, err, _ := s.requestGroup.Do(s.publicKeyURL, func() (interface{}, error) {
		fetching <- struct{}{}
		defer func() { <-fetching }()
		return s.updateKeys()
	})
''')],
 needs="a key set that hangs while a token of another provider is verified with a key not seen yet",
 breaks="key lookups of all providers wait for the one that hangs",
 demo=LATE + '''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/a", "ALL", use("jwt", "j"))))
	w.publish(w.jwk("a"), w.jwk("b"))
	stop := make(chan bool)
	arrived := make(chan bool, 1)
	slow := httptest.NewServer(http.HandlerFunc(func(http.ResponseWriter, *http.Request) { arrived <- true; <-stop }))
	defer close(stop)
	other := w.jwtConfig("slow")
	other.Spec.JwksURL = slow.URL
	go w.set(other)
	<-arrived
	within(t, "a request with a rotated key", func() bool {
		return w.send(demoReq{path: "/a", auth: "Bearer " + w.jwt("b", std("u", "c", time.Hour))}).ok
	})
}
''')
