# fifth round
seed(id="c24-streams", property="C24",
 edits=[("adapter/adapter.go", '''		server:      grpc.NewServer(),''', '''		server:      grpc.NewServer(grpc.MaxConcurrentStreams(64)),''')],
 needs="64 requests of one connection (one mixer) that wait for an identity provider at the same time",
 breaks="every other request of the connection waits until one of them ends",
 demo='''
import (
	"io/ioutil"
	"os"
	"path/filepath"

	"google.golang.org/grpc"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
)

type slow struct {
	hold chan struct{}
	n    chan struct{}
}

func (s *slow) Evaluate(t *authnz.TargetMsg) (*engine.Action, error) {
	if t.Path == "/slow" {
		s.n <- struct{}{}
		<-s.hold
	}
	return &engine.Action{Type: policy.NONE}, nil
}

func TestDemo(t *testing.T) {
	api := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.Contains(r.URL.RawQuery, "watch") {
			select {
			case <-r.Context().Done():
			case <-time.After(100 * time.Second):
			}
			return
		}
		w.Header().Set("Content-Type", "application/json")
		kind := map[string]string{"policies": "Policy", "jwtconfigs": "JwtConfig", "oidcconfigs": "OidcConfig"}[r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]]
		fmt.Fprint(w, `{"kind":"`+kind+`List","apiVersion":"security.cloud.ibm.com/v1","metadata":{"resourceVersion":"1"},"items":[]}`)
	}))
	dir, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(dir)
	conf := filepath.Join(dir, "config")
	ioutil.WriteFile(conf, []byte(fmt.Sprintf("apiVersion: v1\\nkind: Config\\ncurrent-context: c\\nclusters: [{name: c, cluster: {server: %q}}]\\ncontexts: [{name: c, context: {cluster: c, user: u}}]\\nusers: [{name: u, user: {}}]\\n", api.URL)), 0600)
	os.Setenv("KUBECONFIG", conf)
	cfg := config.NewConfig()
	cfg.AdapterPort = 0
	s, err := NewAppIDAdapter(cfg)
	if err != nil {
		t.Fatal(err)
	}
	e := &slow{make(chan struct{}), make(chan struct{}, 1000)}
	s.(*AppidAdapter).engine = e
	go s.Run(make(chan error, 1))
	addr := s.Addr()
	conn, err := grpc.Dial("127.0.0.1"+addr[strings.LastIndex(addr, ":"):], grpc.WithInsecure())
	if err != nil {
		t.Fatal(err)
	}
	cl := authnz.NewHandleAuthnZServiceClient(conn)
	ask := func(path string, d time.Duration) error {
		ctx, cancel := context.WithTimeout(context.Background(), d)
		defer cancel()
		_, err := cl.HandleAuthnZ(ctx, &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{Target: &authnz.TargetMsg{Namespace: "ns", Service: "s", Path: path, Method: "GET"},
			Request: &authnz.RequestMsg{Headers: &authnz.HeadersMsg{}, Params: &authnz.QueryParamsMsg{}}}}, grpc.FailFast(false))
		return err
	}
	if err := ask("/", 60*time.Second); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 100; i++ {
		go ask("/slow", 100*time.Second)
	}
	for i := 0; i < 64; i++ {
		<-e.n
	}
	time.Sleep(500 * time.Millisecond)
	if err := ask("/", 15*time.Second); err != nil {
		t.Fatal("a request is not answered while others wait: ", err)
	}
}
''')

seed(id="c25-redirect-auth", property="C25", pkg="adapter/validator",
 edits=[("adapter/validator/validator.go", '''	res, err := client.Do(req)
''', '''	client.CheckRedirect = func(next *http.Request, via []*http.Request) error {
		// a moved endpoint needs the same headers
		next.Header = via[0].Header
		return nil
	}
	res, err := client.Do(req.WithContext(req.Context()))
''')],
 needs="a userinfo endpoint that answers with a redirect to another host, and an opaque access token",
 breaks="the user's access token is sent to a host which the configuration does not name",
 demo='''
func TestDemo(t *testing.T) {
	got := make(chan string, 10)
	other := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got <- r.Header.Get("Authorization") }))
	defer other.Close()
	idp := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		http.Redirect(w, r, strings.Replace(other.URL, "127.0.0.1", "localhost", 1)+"/x", 302)
	}))
	defer idp.Close()
	NewTokenValidator(policy.OIDC).Validate("opaque-token", Access, keyset.New(idp.URL, nil), nil, idp.URL+"/userinfo")
	close(got)
	for a := range got {
		if strings.Contains(a, "opaque-token") {
			t.Fatal("the token was sent to another host: ", a)
		}
	}
}
''')

seed(id="c17-retry-after", property="C17", pkg="adapter/networking",
 edits=[("adapter/networking/networking.go", '''	defer res.Body.Close()

	// Decode from json
''', '''	defer func() { _ = res.Body.Close() }()

	// An overloaded server says when to come back
	if wait, convErr := strconv.Atoi(res.Header.Get("Retry-After")); convErr == nil && res.StatusCode == http.StatusServiceUnavailable {
		time.Sleep(time.Duration(wait) * time.Second)
		res, err = c.Client.Do(req)
		if err != nil {
			return res, err
		}
	}

	// Decode from json
'''), ("adapter/networking/networking.go", '''	"net/http"
	"time"
''', '''	"net/http"
	"strconv"
	"time"
''')],
 needs="an identity provider that answers 503 with a Retry-After header of many seconds",
 breaks="requests hang as long as the provider likes",
 demo='''
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Retry-After", "60")
		w.WriteHeader(503)
	}))
	defer s.Close()
	done := make(chan struct{})
	go func() {
		r, _ := http.NewRequest("GET", s.URL, nil)
		New().Do(r, nil, nil)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the call waits for as long as the server demands")
	}
}
''')

seed(id="c10-grace", property="C10",
 edits=[("adapter/strategy/web/web.go", '''	if cookieObj.Expiration.Before(time.Now()) {''', '''	if cookieObj.Expiration.Add(30 * time.Second).Before(time.Now()) { // tolerate clocks that differ''')],
 needs="a state cookie presented within half a minute after its expiration",
 breaks="a login completes although its state has expired",
 demo='''
import (
	"github.com/gorilla/securecookie"
	"gopkg.in/mgo.v2/bson"
)

func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "client"), pol("p", "svc", prefix("/a", "ALL", use("oidc", "o"))))
	w.token = func(f url.Values, r *http.Request) (int, m) {
		return 200, m{"access_token": w.jwt("a", std("u", "client", time.Hour)), "id_token": w.jwt("a", std("u", "client", time.Hour)), "expires_in": 3600}
	}
	cookie, state := w.begin("svc", "/a")
	nv := strings.SplitN(cookie, "=", 2)
	l, err := w.kube.CoreV1().Secrets("").List(metav1.ListOptions{})
	if err != nil || len(l.Items) != 1 {
		t.Fatal(err, l)
	}
	sc := securecookie.New(l.Items[0].Data["HASH_KEY"], l.Items[0].Data["BLOCK_KEY"])
	at := func(d time.Duration) string {
		b, err := bson.Marshal(struct {
			Value      string
			Expiration time.Time
		}{state, time.Now().Add(d)})
		if err != nil {
			t.Fatal(err)
		}
		v, err := sc.Encode(nv[0], b)
		if err != nil {
			t.Fatal(err)
		}
		return nv[0] + "=" + v
	}
	try := func(c string) bool {
		r := w.send(demoReq{svc: "svc", path: "/a/oidc/callback", cookie: c, code: "x", state: state})
		return r.location != "" && r.cookie != ""
	}
	if !try(at(time.Minute)) {
		t.Skip("the cookie has another form")
	}
	if try(at(-10 * time.Second)) {
		t.Fatal("a login completes with a state that has expired")
	}
}
''')

seed(id="c12-expires", property="C12",
 edits=[("adapter/strategy/web/web.go", '''	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken, validator.Access, keySet, rules, userInfoEndpoint); validationErr != nil {''', '''	} else if tokens.ExpiresIn <= 0 {
		return nil, nil // already expired
	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken, validator.Access, keySet, rules, userInfoEndpoint); validationErr != nil {''')],
 needs="a provider that answers a refresh without expires_in (it is optional)",
 breaks="the session ends although its refresh token was accepted and new valid tokens were returned",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "client"), pol("p", "svc", prefix("/a", "ALL", use("oidc", "o"))))
	w.token = func(f url.Values, r *http.Request) (int, m) {
		d := time.Hour
		if f.Get("grant_type") != "refresh_token" {
			d = 3 * time.Second
		}
		return 200, m{"access_token": w.jwt("a", std("u", "client", d)), "id_token": w.jwt("a", std("u", "client", d)), "refresh_token": "r"}
	}
	c := w.login("svc", "/a", "x")
	if c == "" {
		t.Fatal("no login")
	}
	time.Sleep(4 * time.Second)
	if r := w.send(demoReq{svc: "svc", path: "/a", cookie: c}); !r.ok {
		t.Fatal("the session is not renewed")
	}
}
''')

seed(id="c07-claim-fold", property="C07", pkg="adapter/validator",
 edits=[("adapter/validator/validator.go", '''		if claim, ok := claims[tier]; ok {''', '''		claim, ok := claims[tier]
		if !ok { // providers differ in the case of claim names
			claim, ok = claims[strings.ToLower(tier)]
		}
		if ok {''')],
 needs="a rule that names a claim with capital letters, and a token with another claim of the same letters in lower case",
 breaks="a rule is satisfied by a claim it does not name",
 demo='''
import jwt "github.com/dgrijalva/jwt-go/v4"

func TestDemo(t *testing.T) {
	if err := validateClaims(&jwt.Token{Claims: jwt.MapClaims{"role": "admin"}, Valid: true}, Access, []v1.Rule{{Claim: "Role", Match: "ANY", Source: "access_token", Values: []string{"admin"}}}); err == nil {
		t.Fatal("the rule is satisfied by another claim")
	}
}
''')

seed(id="c20-b64", property="C20", pkg="adapter/policy/handler/crdeventhandler",
 edits=[("adapter/policy/handler/crdeventhandler/add_event.go", '''			return string(secret.Data[crd.Spec.ClientSecretRef.Key])
''', '''			value := secret.Data[crd.Spec.ClientSecretRef.Key]
			if plain, decodeErr := base64.StdEncoding.DecodeString(string(value)); decodeErr == nil && utf8.Valid(plain) {
				return string(plain) // encoded twice
			}
			return string(value)
'''), ("adapter/policy/handler/crdeventhandler/add_event.go", '''import (
''', '''import (
	"encoding/base64"
	"unicode/utf8"

''')],
 needs="a client secret that happens to be valid base64 of valid UTF-8",
 breaks="the adapter authenticates with something else than the secret",
 demo='''
func TestDemo(t *testing.T) {
	for _, s := range []string{"abcd", "c2VjcmV0", "MDEyMzQ1Njc4OWFi", "secret12"} {
		kube := k8sfake.NewSimpleClientset(&k8sv1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "s"}, Data: map[string][]byte{"k": []byte(s)}})
		o := &v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "o"}, Spec: v1.OidcConfigSpec{ClientID: "c", ClientSecretRef: v1.ClientSecretRef{Name: "s", Key: "k"}}}
		if got := GetClientSecret(o, kube); got != s {
			t.Fatalf("secret %q is used as %q", s, got)
		}
	}
}
''')

seed(id="c15-sixteen-keys", property="C15", pkg="adapter/authserver/keyset",
 edits=[("adapter/authserver/keyset/keyset.go", '''	for _, k := range ks.Keys {
''', '''	if len(ks.Keys) > 16 {
		ks.Keys = ks.Keys[:16] // more keys than any provider rotates
	}
	for _, k := range ks.Keys[:] {
''')],
 needs="a provider that publishes more than sixteen keys",
 breaks="tokens signed with a key that the provider publishes are refused",
 demo='''
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		out := []string{}
		for i := 0; i < 20; i++ {
			out = append(out, fmt.Sprintf(`{"kty":"RSA","kid":"k%d","alg":"RS256","use":"sig","n":"%s","e":"AQAB"}`, i, base64.RawURLEncoding.EncodeToString(bytes.Repeat([]byte{byte(i + 200)}, 256))))
		}
		fmt.Fprintf(w, `{"keys":[%s]}`, strings.Join(out, ","))
	}))
	defer s.Close()
	ks := New(s.URL, nil)
	for i := 0; i < 20; i++ {
		if ks.PublicKey(fmt.Sprintf("k%d", i)) == nil {
			t.Fatalf("key %d of 20 is not found", i)
		}
	}
}
''')

seed(id="c06-kid-path", property="C06", pkg="adapter/validator",
 edits=[("adapter/validator/validator.go", '''		key := jwks.PublicKey(keyID)
''', '''		// some providers use the URL of the key as its ID
		key := jwks.PublicKey(keyID[strings.LastIndex(keyID, "/")+1:])
''')],
 needs="a token whose key ID ends in the ID of a published key after a slash",
 breaks="a token that names a key which is not published is accepted",
 demo='''
import (
	"crypto"
	"crypto/rand"

	"github.com/dgrijalva/jwt-go/v4"
)

type oneKey struct{ pub interface{} }

func (k oneKey) PublicKeyURL() string { return "" }
func (k oneKey) PublicKey(kid string) crypto.PublicKey {
	if kid == "k" {
		return k.pub
	}
	return nil
}

func TestDemo(t *testing.T) {
	key, _ := rsa.GenerateKey(rand.Reader, 2048)
	tok := jwt.NewWithClaims(jwt.SigningMethodRS256, jwt.MapClaims{"exp": time.Now().Add(time.Hour).Unix(), "sub": "x"})
	tok.Header["kid"] = "k"
	good, _ := tok.SignedString(key)
	if err := NewTokenValidator(policy.JWT).Validate(good, Access, oneKey{&key.PublicKey}, nil, ""); err != nil {
		t.Fatal(err)
	}
	tok.Header["kid"] = "https://other/keys/k"
	bad, _ := tok.SignedString(key)
	if err := NewTokenValidator(policy.JWT).Validate(bad, Access, oneKey{&key.PublicKey}, nil, ""); err == nil {
		t.Fatal("a token of a key that is not published is accepted")
	}
}
''')

seed(id="c14-trim", property="C14",
 edits=[("adapter/strategy/web/web.go", '''		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])''', '''		w.encrpytor = securecookie.New(bytes.TrimSpace(s.Data[hashKey]), bytes.TrimSpace(s.Data[blockKey]))'''),
        ("adapter/strategy/web/web.go", '''import (
''', '''import (
	"bytes"
''')],
 needs="a stored key that begins or ends with a byte that is white space (one pair in about fifteen)",
 breaks="logins begun by this replica cannot be completed by others that use the stored key, or cannot begin at all",
 demo='''
func TestDemo(t *testing.T) {
	kube := k8sfake.NewSimpleClientset()
	first := newDemoKube(t, kube)
	first.set(first.oidcConfig("o", "client"), pol("p", "svc", prefix("/a", "ALL", use("oidc", "o"))))
	first.begin("svc", "/a")
	l, err := kube.CoreV1().Secrets("").List(metav1.ListOptions{})
	if err != nil || len(l.Items) != 1 {
		t.Fatal(err)
	}
	s := l.Items[0]
	s.Data["BLOCK_KEY"][15] = 10
	if _, err := kube.CoreV1().Secrets(s.Namespace).Update(&s); err != nil {
		t.Fatal(err)
	}
	second := newDemoKube(t, kube)
	second.set(second.oidcConfig("o", "client"), pol("p", "svc", prefix("/a", "ALL", use("oidc", "o"))))
	if c, _ := second.begin("svc", "/a"); c == "" {
		t.Fatal("no login can begin with the stored key")
	}
}
''')
