W = "adapter/strategy/web/web.go"
IN = "adapter/policy/initializer/policyinitializer.go"
CT = "adapter/policy/controller/controller.go"
VA = "adapter/validator/validator.go"
AS = "adapter/authserver/authserver.go"
KS = "adapter/authserver/keyset/keyset.go"
AD = "adapter/policy/handler/crdeventhandler/add_event.go"
EN = "adapter/policy/engine/engine.go"

INFORMER = '''
// capture is an informer that only keeps the handlers it is given.
type capture struct {
	cache.SharedIndexInformer
	idx cache.Indexer
	got chan cache.ResourceEventHandler
}

func (c *capture) AddEventHandler(h cache.ResourceEventHandler) { c.got <- h }
func (c *capture) Run(stop <-chan struct{})                     { <-stop }
func (c *capture) HasSynced() bool                              { return true }
func (c *capture) GetIndexer() cache.Indexer                    { return c.idx }

type events struct{ got chan string }

func (e *events) HandleAddUpdateEvent(o interface{}) { e.got <- "set " + o.(*v1.JwtConfig).Spec.JwksURL }
func (e *events) HandleDeleteEvent(k interface{})    { e.got <- "delete " + k.(policy.CrdKey).Id }

func start() (*capture, cache.ResourceEventHandler, *events) {
	c := &capture{idx: cache.NewIndexer(cache.MetaNamespaceKeyFunc, cache.Indexers{}), got: make(chan cache.ResourceEventHandler, 1)}
	e := &events{make(chan string, 10)}
	go initPolicyController(c, k8sfake.NewSimpleClientset(), e, v1.JWTCONFIG)
	return c, <-c.got, e
}

func obj(url string) *v1.JwtConfig {
	return &v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "j", Generation: 1}, Spec: v1.JwtConfigSpec{JwksURL: url}}
}

func expect(t *testing.T, e *events, want string) {
	select {
	case g := <-e.got:
		if g != want {
			t.Fatalf("handled %q, expected %q", g, want)
		}
	case <-time.After(5 * time.Second):
		t.Fatalf("%q was not handled", want)
	}
}
'''

seed(id="c18-lost-tombstone", property="C18", pkg="adapter/policy/initializer",
 edits=[(IN, '''			// DeletionHandlingMetaNamsespaceKeyFunc is a helper function that allows
			// us to check the DeletedFinalStateUnknown existence in the event that
			// a resource was deleted but it is still contained in the index
			//
			// this then in turn calls MetaNamespaceKeyFunc
			key, err := cache.DeletionHandlingMetaNamespaceKeyFunc(obj)
''', '''			key, err := cache.MetaNamespaceKeyFunc(obj)
''')],
 needs="a resource deleted while the watch is broken, so that the deletion is only discovered by the next list",
 breaks="the deletion is dropped and the object stays in force until the adapter restarts",
 demo=INFORMER + '''
func TestDemo(t *testing.T) {
	c, h, e := start()
	o := obj("u1")
	c.idx.Add(o)
	h.OnAdd(o)
	expect(t, e, "set u1")
	c.idx.Delete(o)
	h.OnDelete(cache.DeletedFinalStateUnknown{Key: "ns/j", Obj: o})
	expect(t, e, "delete ns/j")
}
''')

seed(id="c18-same-generation", property="C18", pkg="adapter/policy/initializer",
 edits=[(IN, '''		UpdateFunc: func(oldObj, newObj interface{}) {
			key, err := cache.MetaNamespaceKeyFunc(newObj)
''', '''		UpdateFunc: func(oldObj, newObj interface{}) {
			// status and metadata updates do not change the specification
			if o, err := meta.Accessor(oldObj); err == nil {
				if n, err := meta.Accessor(newObj); err == nil && n.GetGeneration() != 0 && n.GetGeneration() == o.GetGeneration() {
					return
				}
			}
			key, err := cache.MetaNamespaceKeyFunc(newObj)
'''), (IN, '''	"k8s.io/client-go/kubernetes"
	_ "k8s''', '''	"k8s.io/apimachinery/pkg/api/meta"
	"k8s.io/client-go/kubernetes"
	_ "k8s''')],
 needs="an object deleted and created again with another specification while the watch is broken",
 breaks="the informer reports the re-creation as an update with equal generations, which is skipped: the old specification stays in force",
 demo=INFORMER + '''
func TestDemo(t *testing.T) {
	c, h, e := start()
	o := obj("u1")
	o.UID = "1"
	c.idx.Add(o)
	h.OnAdd(o)
	expect(t, e, "set u1")
	n := obj("u2")
	n.UID = "2"
	c.idx.Update(n)
	h.OnUpdate(o, n)
	expect(t, e, "set u2")
}
''')

seed(id="c18-no-forget", property="C18", pkg="adapter/policy/controller",
 edits=[(CT, '''		c.Handler.HandleAddUpdateEvent(item)
		c.Queue.Forget(key)
''', '''		c.Handler.HandleAddUpdateEvent(item)
''')],
 needs="lookup failures of one object at different times, five in total, each followed by success",
 breaks="later lookup failures of that object are not retried, so its change is lost",
 demo='''
type informer struct {
	cache.SharedIndexInformer
	f *flaky
}

func (i informer) GetIndexer() cache.Indexer { return i.f }

type flaky struct {
	cache.Indexer
	fail bool
}

func (f *flaky) GetByKey(k string) (interface{}, bool, error) {
	if f.fail {
		return nil, false, errors.New("lookup failed")
	}
	return f.Indexer.GetByKey(k)
}

type events struct{ n int }

func (e *events) HandleAddUpdateEvent(interface{}) { e.n++ }
func (e *events) HandleDeleteEvent(interface{})    {}

func TestDemo(t *testing.T) {
	f := &flaky{Indexer: cache.NewIndexer(cache.MetaNamespaceKeyFunc, cache.Indexers{})}
	o := &v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "j"}}
	f.Indexer.Add(o)
	e := &events{}
	c := &Controller{Queue: workqueue.NewRateLimitingQueue(workqueue.NewItemExponentialFailureRateLimiter(time.Millisecond, time.Millisecond)), Informer: informer{f: f}, Handler: e}
	for i := 0; i < 8; i++ {
		c.Queue.Add("ns/j")
		f.fail = true
		c.processNextItem()
		f.fail = false
		for end := time.Now().Add(2 * time.Second); c.Queue.Len() == 0; time.Sleep(time.Millisecond) {
			if time.Now().After(end) {
				t.Fatalf("failed lookup %d was not retried", i+1)
			}
		}
		c.processNextItem()
		if e.n != i+1 {
			t.Fatal("not handled")
		}
	}
}
''')

seed(id="c20-remembered-secret", property="C20",
 edits=[(AD, '''		secret, err := GetKubeSecret(kubeClient, crd.ObjectMeta.Namespace, crd.Spec.ClientSecretRef)
''', '''		secret, err := rememberedSecret(kubeClient, crd.ObjectMeta.Namespace, crd.Spec.ClientSecretRef)
'''), (AD, '''func GetAddEventHandler(''', '''var knownSecrets sync.Map

// rememberedSecret reads a secret, or uses the last version if the Kubernetes API is not available
func rememberedSecret(kubeClient kubernetes.Interface, namespace string, ref v1.ClientSecretRef) (*k8sv1.Secret, error) {
	secret, err := GetKubeSecret(kubeClient, namespace, ref)
	if err != nil {
		if known, ok := knownSecrets.Load(ref); ok {
			return known.(*k8sv1.Secret), nil
		}
		return nil, err
	}
	knownSecrets.Store(ref, secret)
	return secret, nil
}

func GetAddEventHandler('''), (AD, '''import (
	"go.uber.org/zap"
''', '''import (
	"sync"

	"go.uber.org/zap"
	k8sv1 "k8s.io/api/core/v1"
''')],
 needs="two namespaces with the same secret reference, the secret missing in the second",
 breaks="the secret of another namespace is sent in place of the configured plain client secret",
 demo='''
func TestDemo(t *testing.T) {
	kube := k8sfake.NewSimpleClientset(&k8sv1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "other", Name: "s"}, Data: map[string][]byte{"k": []byte("other-ns")}})
	w := newDemoKube(t, kube)
	first := w.oidcConfig("o", "c1")
	first.Namespace = "other"
	first.Spec.ClientSecretRef = v1.ClientSecretRef{Name: "s", Key: "k"}
	cfg := w.oidcConfig("o", "c1")
	cfg.Spec.ClientSecretRef = v1.ClientSecretRef{Name: "s", Key: "k"}
	w.set(first, cfg, pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	got := "none"
	w.token = func(f url.Values, r *http.Request) (int, m) {
		_, got, _ = r.BasicAuth()
		return 400, m{"error": "x"}
	}
	w.login("svc", "/x", "code")
	if got != "secret" {
		t.Fatalf("secret %q used", got)
	}
}
''')

seed(id="c23-parent-pruned", property="C23", pkg="adapter/policy/store/pathtrie",
 edits=[("adapter/policy/store/pathtrie/pathtrie.go", '''			delete(parent.children, part)
			if parent.value != nil || !parent.isLeaf() {
				// parent has a value or has other children, stop
''', '''			delete(parent.children, part)
			if !parent.isLeaf() {
				// parent has other children, stop
''')],
 needs="a key deleted below another key that has a value and no other children",
 breaks="the value of the enclosing key is lost",
 demo='''
func TestDemo(t *testing.T) {
	p := NewPathTrie()
	p.Put("/a", 1)
	p.Put("/a/b", 2)
	p.Delete("/a/b")
	if p.Get("/a") != 1 {
		t.Fatal("value lost")
	}
}
''')

seed(id="c08-any-scopes", property="C08",
 edits=[(VA, """		if r.Claim == scope {
""", """		if r.Claim == scope && r.Match != ANY { // no single scope of an ANY rule is required
""")],
 needs="a scope rule that matches any of its values",
 breaks="the challenge does not list the scopes of the policy's scope rule",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/", "ALL", use("jwt", "j", v1.Rule{Claim: "scope", Match: "ANY", Values: []string{"read", "write"}}))))
	if r := w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", std("u", "c", time.Hour))}); !strings.Contains(r.www, "read write") {
		t.Fatal("challenge", r.www)
	}
}
''')

seed(id="c16-gives-up", property="C16",
 edits=[(AS, '''		return s.loadDiscoveryEndpoint()
	})
''', '''		if s.failures > 20 { // the configured endpoint does not exist
			return nil, errors.New("discovery endpoint is not available")
		}
		res, err := s.loadDiscoveryEndpoint()
		if err != nil {
			s.failures++
		}
		return res, err
	})
'''), (AS, '''	requestGroup singleflight.Group
''', '''	requestGroup singleflight.Group
	failures     int // failed discovery requests
''')],
 needs="an identity provider that is unavailable for more than twenty discovery attempts",
 breaks="the configuration never works again, although discovery would succeed",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	down := true
	w.discovery = func(d m) (int, interface{}) {
		if down {
			return 503, m{"error": "down"}
		}
		return 200, d
	}
	w.set(w.oidcConfig("o", "c1"), pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	for i := 0; i < 25; i++ {
		w.send(demoReq{path: "/x"})
	}
	down = false
	if r := w.send(demoReq{path: "/x"}); !strings.HasPrefix(r.location, w.idp.URL) {
		t.Fatal("no redirect after recovery", r)
	}
}
''')

seed(id="c15-lookup-budget", property="C15",
 edits=[(KS, '''	_ = s.updateKeysGrouped()
	return s.cachedKey(kid)
''', '''	if err := s.updateKeysGrouped(); err != nil {
		// fall back to the only key of a provider that is not available
		s.mutex.RLock()
		defer s.mutex.RUnlock()
		if len(s.publicKeys) == 1 {
			for _, key := range s.publicKeys {
				return key
			}
		}
	}
	return s.cachedKey(kid)
''')],
 needs="an unknown kid in a token signed with the single known key while the key set endpoint fails",
 breaks="a failing key set answer makes a token with an unknown kid pass",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/", "ALL", use("jwt", "j"))))
	w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", std("u", "c", time.Hour))})
	w.idp.Close()
	w.keys["zz"] = w.keys["a"]
	if w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("zz", std("u", "c", time.Hour))}).ok {
		t.Fatal("unknown kid accepted")
	}
}
''')

seed(id="c19-nested-claim-cast", property="C19",
 edits=[(VA, '''			if cast, ok := claim.(map[string]interface{}); ok {
				claims = cast
				continue
			}
			return nil
		}
''', '''			if claim == nil {
				return nil
			}
			switch cast := claim.(type) {
			case string, bool, float64:
				return nil
			default:
				claims = cast.(map[string]interface{})
			}
			continue
		}
''')],
 needs="a dotted claim name in a rule and a token in which the enclosing claim is an array",
 breaks="the adapter panics",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/", "ALL", use("jwt", "j", v1.Rule{Claim: "a.b", Values: []string{"c"}}))))
	c := std("u", "c", time.Hour)
	c["a"] = []string{"b"}
	if w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", c)}).ok {
		t.Fatal("accepted")
	}
}
''')

seed(id="c09-expired-id-token", property="C09",
 edits=[(W, '''	if validationErr := w.tokenUtil.Validate(session.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint); validationErr != nil {
		return handleTokenValidationError(validationErr)
	}
''', '''	if validationErr := w.tokenUtil.Validate(session.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint); validationErr != nil {
		// the ID token describes the login, the session lasts as long as the access token
		if validationErr.Msg != oAuthError.ExpiredToken {
			return handleTokenValidationError(validationErr)
		}
	}
''')],
 needs="an ID token that expires before the access token",
 breaks="a session whose ID token is expired passes",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "c1"), pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	w.token = func(f url.Values, r *http.Request) (int, m) {
		if f.Get("grant_type") == "refresh_token" {
			return 400, m{"error": "invalid_grant"}
		}
		return 200, m{"access_token": w.jwt("a", std("u", "c1", time.Hour)), "id_token": w.jwt("a", std("u", "c1", 2*time.Second)), "refresh_token": "r"}
	}
	cookie := w.login("svc", "/x", "code")
	if !w.send(demoReq{path: "/x", cookie: cookie}).ok {
		t.Fatal("login failed")
	}
	time.Sleep(3500 * time.Millisecond)
	if w.send(demoReq{path: "/x", cookie: cookie}).ok {
		t.Fatal("a session with an expired ID token passes")
	}
}
''')

seed(id="c10-state-of-any-client", property="C10",
 edits=[(W, '''	if encoded, err := sc.Encode(cookieName, data); err == nil {
''', '''	if encoded, err := sc.Encode(sessionCookie, data); err == nil {
'''), (W, '''	if err := sc.Decode(cookie.Name, cookie.Value, &value); err != nil {
''', '''	if err := sc.Decode(sessionCookie, cookie.Value, &value); err != nil {
''')],
 needs="a state cookie issued for one client presented under another client's cookie name",
 breaks="a login of one client is completed with the state cookie of another",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "c1"), w.oidcConfig("o2", "c2"), pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))), pol("p2", "svc2", prefix("/", "ALL", use("oidc", "o2"))))
	w.token = func(f url.Values, r *http.Request) (int, m) {
		return 200, m{"access_token": w.jwt("a", std("u", "c2", time.Hour)), "id_token": w.jwt("a", std("u", "c2", time.Hour))}
	}
	cookie, state := w.begin("svc", "/x")
	r := w.send(demoReq{svc: "svc2", path: "/x/oidc/callback", cookie: strings.Replace(cookie, "oidc-cookie-c1", "oidc-cookie-c2", 1), code: "code", state: state})
	if r.location != "" || r.cookie != "" {
		t.Fatal("the callback of another client succeeded")
	}
}
''')

seed(id="c05-blank-endpoint", property="C05", world=True,
 edits=[(AD, '''		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
''', '''		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
		if e.Store.GetPolicies(policies.Endpoint).PolicyReference == mappingId {
			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy()) // drop the previous version
		}
''')],
 needs="a request served at the moment at which an update of its policy is processed",
 breaks="the request passes without credentials although its endpoint was protected all the time",
 demo='''
type pausing struct {
	storepolicy.PolicyStore
	after func()
}

func (p *pausing) SetPolicies(e policy.Endpoint, a policy.RoutePolicy) {
	p.PolicyStore.SetPolicies(e, a)
	p.after()
}

func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", exact("/x", "ALL", use("jwt", "j"))))
	open := false
	w.h = handler.New(&pausing{w.store, func() { open = open || w.send(demoReq{path: "/x"}).ok }}, w.kube)
	w.set(pol("p", "svc", exact("/x", "ALL", use("jwt", "j", v1.Rule{Claim: "aud", Values: []string{"c"}}))))
	if open {
		t.Fatal("a request passed during the update")
	}
}
''')

seed(id="c03-stale-mapping", property="C03",
 edits=[(AD, '''	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
''', '''	if len(parsedPolicies) > 0 {
		e.Store.AddPolicyMapping(mappingId, parsedPolicies)
	}
''')],
 needs="a policy updated to have no targets, and another policy that sets and releases one of its former endpoints",
 breaks="the endpoint stays protected by the former version of the first policy",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", exact("/x", "ALL", use("jwt", "j"))))
	w.set(&v1.Policy{ObjectMeta: meta("p")})
	if !w.send(demoReq{path: "/x"}).ok {
		t.Fatal("still protected after the update")
	}
	w.set(pol("q", "svc", exact("/x", "ALL", use("jwt", "j"))))
	w.del(v1.POLICY, "ns/q")
	if !w.send(demoReq{path: "/x"}).ok {
		t.Fatal("protected by a policy version that is gone")
	}
}
''')

seed(id="c04-skip-unresolved", property="C04",
 edits=[(EN, '''					if set := m.store.GetKeySet(configName); set != nil {
						action.KeySet = set
					} else {
''', '''					if set := m.store.GetKeySet(configName); set != nil {
						action.KeySet = set
					} else if client := m.store.GetClient(configName); client != nil { // tokens of an OIDC provider
						action.KeySet = client.AuthorizationServer().KeySet()
					} else {
''')],
 needs="a jwt policy whose JwtConfig does not exist while an OidcConfig of the same name does",
 breaks="a configuration of another kind is used",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("j", "c"), pol("p", "svc", exact("/x", "ALL", use("jwt", "j"))))
	if w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", std("u", "c", time.Hour))}).ok {
		t.Fatal("passes without a JwtConfig")
	}
}
''')

seed(id="c02-head-as-get", property="C02",
 edits=[("adapter/policy/action.go", '''	case "GET":
		return GET
''', '''	case "GET", "HEAD":
		return GET
''')],
 needs="a HEAD request at an endpoint with entries for GET and for ALL methods",
 breaks="the entry for another method decides the request",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), w.oidcConfig("o", "c"), pol("p", "svc", exact("/x", "GET", use("jwt", "j")), exact("/x", "ALL", use("oidc", "o"))))
	if w.send(demoReq{path: "/x", method: "HEAD"}).location == "" {
		t.Fatal("HEAD is decided by the entry for GET")
	}
}
''')

seed(id="c06-verified-cache", property="C06",
 edits=[(VA, '''	return jwt.Parse(token, getKey)
''', '''	if t, ok := verified.Load(token); ok && t.(*jwt.Token).Claims.(jwt.MapClaims).Valid() == nil {
		return t.(*jwt.Token), nil
	}
	t, err := jwt.Parse(token, getKey)
	if err == nil {
		verified.Store(token, t)
	}
	return t, err
'''), (VA, '''// validateSignature parses the given''', '''// verified holds the tokens whose signatures have been verified
var verified sync.Map

// validateSignature parses the given'''), (VA, '''	"strings"
	"time"
''', '''	"strings"
	"sync"
	"time"
''')],
 needs="a token accepted under one configuration and presented under another with other keys",
 breaks="a token signed by keys that the endpoint's configuration does not publish passes",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", exact("/x", "ALL", use("jwt", "j"))))
	tok := "Bearer " + w.jwt("a", std("u", "c", time.Hour))
	if !w.send(demoReq{path: "/x", auth: tok}).ok {
		t.Fatal("rejected")
	}
	w.publish(w.jwk("b"))
	w.set(w.jwtConfig("j2"), pol("p2", "svc", exact("/y", "ALL", use("jwt", "j2"))))
	if w.send(demoReq{path: "/y", auth: tok}).ok {
		t.Fatal("accepted with a key that is not published")
	}
}
''')

seed(id="c13-kept-session-id", property="C13",
 edits=[(W, '''	cookie := generateSessionIDCookie(action.Client, nil)
	w.tokenCache.Store(cookie.Value, response)
''', '''	// keep the browser's cookie if it has one
	var sessionID *string
	header := http.Header{"Cookie": {request.Headers.Cookies}}
	if current, err := (&http.Request{Header: header}).Cookie(buildTokenCookieName(sessionCookie, action.Client)); err == nil {
		sessionID = &current.Value
	}
	cookie := generateSessionIDCookie(action.Client, sessionID)
	w.tokenCache.Store(cookie.Value, response)
''')],
 needs="two logins completed with the same state cookie",
 breaks="the second login takes over the first one's session id, so one user's cookie carries the other user's tokens",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "c1"), pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	w.token = func(f url.Values, r *http.Request) (int, m) {
		return 200, m{"access_token": w.jwt("a", std(f.Get("code"), "c1", time.Hour)), "id_token": w.jwt("a", std(f.Get("code"), "c1", time.Hour))}
	}
	cookie, state := w.begin("svc", "/x")
	one := w.send(demoReq{path: "/x/oidc/callback", cookie: cookie, code: "alice", state: state}).cookie
	two := w.send(demoReq{path: "/x/oidc/callback", cookie: cookie, code: "bob", state: state}).cookie
	if one == two {
		t.Fatal("two logins share a session")
	}
}
''')

seed(id="c21-set-then-check", property="C21", pkg="adapter/config",
 edits=[("adapter/config/intoptions.go", '''	if _, ok := o.Options[v]; !ok {
		return errors.New("Expected value in " + mapKeysToString(o.Options))
	}

	o.Value = v
	return nil
''', '''	o.Value = v
	if _, ok := o.Options[o.Value]; !ok {
		return errors.New("Expected value in " + mapKeysToString(o.Options))
	}
	return nil
''')],
 needs="a rejected value after an accepted one",
 breaks="the rejected value stays configured",
 demo='''
func TestDemo(t *testing.T) {
	c := NewConfig()
	before := c.HashKeySize.String()
	if c.HashKeySize.Set("17") == nil || c.HashKeySize.String() != before {
		t.Fatal("rejected value kept")
	}
}
''')

seed(id="c22-shared-targets", property="C22", pkg="adapter/pkg/apis/policies/v1",
 package="v1", edits=[("adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go", '''	if in.Paths != nil {
		in, out := &in.Paths, &out.Paths
		*out = make([]PathConfig, len(*in))
''', '''	if len(in.Paths) > 1 {
		in, out := &in.Paths, &out.Paths
		*out = make([]PathConfig, len(*in))
''')],
 needs="a target with exactly one path",
 breaks="a copy shares the path with the original",
 demo='''
func TestDemo(t *testing.T) {
	p := &Policy{Spec: PolicySpec{Target: []TargetElement{{Paths: []PathConfig{{Exact: "/a"}}}}}}
	p.DeepCopy().Spec.Target[0].Paths[0].Exact = "/b"
	if p.Spec.Target[0].Paths[0].Exact != "/a" {
		t.Fatal("shared")
	}
}
''')

seed(id="c17-undecoded-redirect", property="C17",
 edits=[("adapter/networking/networking.go", '''	defer res.Body.Close()

	// Decode from json
''', '''	// Decode from json
'''), ("adapter/networking/networking.go", '''	} else {
		if failureV != nil {
			return decodeJSON(res, failureV)
		}
	}
	return nil''', '''	} else if code >= 400 { // the client follows redirects
		if failureV != nil {
			return decodeJSON(res, failureV)
		}
		_ = res.Body.Close()
	}
	return nil'''), ("adapter/networking/networking.go", '''func decodeJSON(r *http.Response, v OK) error {
	if err''', '''func decodeJSON(r *http.Response, v OK) error {
	defer r.Body.Close()
	if err''')],
 needs="an identity provider answering with a redirect status that carries no location, or 304",
 breaks="the response body is never released",
 demo='''
type body struct {
	io.Reader
	closed *bool
}

func (b body) Close() error { *b.closed = true; return nil }

type rt struct{ closed bool }

func (r *rt) RoundTrip(q *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 304, Body: body{strings.NewReader("{}"), &r.closed}, Header: http.Header{}, Request: q}, nil
}

type val struct{}

func (val) OK() error { return nil }

func TestDemo(t *testing.T) {
	r := &rt{}
	c := networking.New()
	c.Client.Transport = r
	req, _ := http.NewRequest("GET", "http://idp", nil)
	c.Do(req, &val{}, &val{})
	if !r.closed {
		t.Fatal("body not closed")
	}
}
''')

seed(id="c01-encoded-slash", property="C01",
 edits=[("adapter/adapter.go", '''	action, err := s.engine.Evaluate(r.Instance.Target)
''', '''	if i := strings.IndexAny(r.Instance.Target.Path, "?#"); i >= 0 { // only the path counts
		r.Instance.Target.Path = r.Instance.Target.Path[:i]
	}
	action, err := s.engine.Evaluate(r.Instance.Target)
''')],
 needs="a path with a question mark or hash in its last segments",
 breaks="a request below a protected prefix is decided as if it were its parent",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/a#b", "ALL", use("jwt", "j"))))
	if w.send(demoReq{path: "/a#b/c"}).ok {
		t.Fatal("protected path passes")
	}
}
''')
