package adapter

// A small world for demonstrations: a local identity provider, a fake Kubernetes client and the adapter's own
// handlers, store, engine and strategies. Everything stays inside this process.

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dgrijalva/jwt-go/v4"
	"github.com/gogo/googleapis/google/rpc"
	"github.com/gogo/protobuf/types"
	policyapi "istio.io/api/policy/v1beta1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	k8sfake "k8s.io/client-go/kubernetes/fake"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	apistrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/api"
	webstrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

type m = map[string]interface{}

type demoWorld struct {
	t     *testing.T
	kube  kubernetes.Interface
	store storepolicy.PolicyStore
	h     handler.PolicyHandler
	a     *AppidAdapter
	idp   *httptest.Server
	keys  map[string]*rsa.PrivateKey

	mu        sync.Mutex
	published []interface{}                                      // JWKs served
	token     func(form url.Values, r *http.Request) (int, m)    // token endpoint
	userinfo  func(auth string) int                              // userinfo endpoint
	discovery func(doc m) (int, interface{})                     // discovery endpoint
	calls     map[string]int
}

func newDemo(t *testing.T) *demoWorld { return newDemoKube(t, k8sfake.NewSimpleClientset()) }

func newDemoKube(t *testing.T, kube kubernetes.Interface) *demoWorld {
	w := &demoWorld{t: t, kube: kube, store: storepolicy.New(), keys: map[string]*rsa.PrivateKey{}, calls: map[string]int{}}
	for _, kid := range []string{"a", "b"} {
		w.keys[kid], _ = rsa.GenerateKey(rand.Reader, 2048)
	}
	w.published = []interface{}{w.jwk("a")}
	mux := http.NewServeMux()
	w.idp = httptest.NewServer(mux)
	reply := func(rw http.ResponseWriter, status int, v interface{}) {
		b, _ := json.Marshal(v)
		rw.WriteHeader(status)
		rw.Write(b)
	}
	count := func(name string) { w.mu.Lock(); w.calls[name]++; w.mu.Unlock() }
	mux.HandleFunc("/disc", func(rw http.ResponseWriter, r *http.Request) {
		count("disc")
		doc := m{"issuer": w.idp.URL, "authorization_endpoint": w.idp.URL + "/authorize", "token_endpoint": w.idp.URL + "/token",
			"jwks_uri": w.idp.URL + "/jwks", "userinfo_endpoint": w.idp.URL + "/userinfo"}
		if w.discovery != nil {
			s, d := w.discovery(doc)
			reply(rw, s, d)
			return
		}
		reply(rw, 200, doc)
	})
	mux.HandleFunc("/jwks", func(rw http.ResponseWriter, r *http.Request) {
		count("jwks")
		w.mu.Lock()
		p := w.published
		w.mu.Unlock()
		reply(rw, 200, m{"keys": p})
	})
	mux.HandleFunc("/token", func(rw http.ResponseWriter, r *http.Request) {
		count("token")
		r.ParseForm()
		if w.token == nil {
			reply(rw, 400, m{"error": "invalid_grant"})
			return
		}
		s, d := w.token(r.PostForm, r)
		reply(rw, s, d)
	})
	mux.HandleFunc("/userinfo", func(rw http.ResponseWriter, r *http.Request) {
		count("userinfo")
		s := 401
		if w.userinfo != nil {
			s = w.userinfo(r.Header.Get("Authorization"))
		}
		reply(rw, s, m{})
	})
	w.h = handler.New(w.store, kube)
	w.a = w.newAdapter()
	return w
}

func (w *demoWorld) newAdapter() *AppidAdapter {
	eng, _ := engine.New(w.store)
	return &AppidAdapter{engine: eng, apistrategy: apistrategy.New(), webstrategy: webstrategy.New(config.NewConfig(), w.kube)}
}

func (w *demoWorld) jwk(kid string) interface{} {
	k := w.keys[kid]
	return m{"kty": "RSA", "use": "sig", "kid": kid, "alg": "RS256",
		"n": base64.RawURLEncoding.EncodeToString(k.N.Bytes()), "e": base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.E)).Bytes())}
}

func (w *demoWorld) publish(jwks ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.published = jwks
}

// jwt signs claims with the named key.
func (w *demoWorld) jwt(kid string, claims m) string {
	tok := jwt.NewWithClaims(jwt.SigningMethodRS256, jwt.MapClaims(claims))
	tok.Header["kid"] = kid
	s, err := tok.SignedString(w.keys[kid])
	if err != nil {
		w.t.Fatal(err)
	}
	return s
}

func at(d time.Duration) int64 { return time.Now().Add(d).Unix() }

// std are ordinary claims of a user's token for a client.
func std(user, client string, d time.Duration) m {
	return m{"iss": "idp", "sub": user, "aud": client, "exp": at(d), "iat": at(-time.Minute)}
}

func (w *demoWorld) set(objs ...interface{}) {
	for _, o := range objs {
		w.h.HandleAddUpdateEvent(o)
	}
}

func (w *demoWorld) del(kind v1.CrdType, id string) {
	w.h.HandleDeleteEvent(policy.CrdKey{Id: id, CrdType: kind})
}

func meta(name string) metav1.ObjectMeta { return metav1.ObjectMeta{Namespace: "ns", Name: name} }

func (w *demoWorld) jwtConfig(name string) *v1.JwtConfig {
	return &v1.JwtConfig{ObjectMeta: meta(name), Spec: v1.JwtConfigSpec{JwksURL: w.idp.URL + "/jwks"}}
}

func (w *demoWorld) oidcConfig(name, client string) *v1.OidcConfig {
	return &v1.OidcConfig{ObjectMeta: meta(name), Spec: v1.OidcConfigSpec{ClientID: client, ClientSecret: "secret", DiscoveryURL: w.idp.URL + "/disc"}}
}

func pol(name, svc string, paths ...v1.PathConfig) *v1.Policy {
	return &v1.Policy{ObjectMeta: meta(name), Spec: v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: svc, Paths: paths}}}}
}

func exact(p, method string, pp ...v1.PathPolicy) v1.PathConfig {
	return v1.PathConfig{Exact: p, Method: method, Policies: pp}
}

func prefix(p, method string, pp ...v1.PathPolicy) v1.PathConfig {
	return v1.PathConfig{Prefix: p, Method: method, Policies: pp}
}

func use(typ, cfg string, rules ...v1.Rule) v1.PathPolicy {
	return v1.PathPolicy{PolicyType: typ, Config: cfg, Rules: rules}
}

type demoReq struct {
	svc, path, method, auth, cookie, code, state string
}

type demoRes struct {
	err      error
	ok       bool
	location string
	cookie   string // name=value of the cookie set
	www      string
	http     int
	forward  string
}

func (w *demoWorld) send(r demoReq) demoRes { return w.sendTo(w.a, r) }

func (w *demoWorld) sendTo(a *AppidAdapter, r demoReq) (out demoRes) {
	if r.svc == "" {
		r.svc = "svc"
	}
	if r.method == "" {
		r.method = "GET"
	}
	res, err := a.HandleAuthnZ(context.Background(), &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target: &authnz.TargetMsg{Namespace: "ns", Service: r.svc, Path: r.path, Method: r.method},
		Request: &authnz.RequestMsg{Scheme: "https", Host: "host", Path: r.path,
			Headers: &authnz.HeadersMsg{Authorization: r.auth, Cookies: r.cookie},
			Params:  &authnz.QueryParamsMsg{Code: r.code, State: r.state}},
	}})
	if err != nil {
		out.err = err
		return
	}
	out.ok = res.Result.Status.Code == int32(rpc.OK)
	if res.Output != nil {
		out.forward = res.Output.Authorization
	}
	for _, d := range res.Result.Status.Details {
		direct := &policyapi.DirectHttpResponse{}
		if types.UnmarshalAny(d, direct) == nil {
			out.http = int(direct.Code)
			out.location = direct.Headers["location"]
			out.www = direct.Headers["WWW-Authenticate"]
			out.cookie = strings.SplitN(direct.Headers["Set-Cookie"], ";", 2)[0]
		}
	}
	return
}

// begin starts a login: the state cookie and the state.
func (w *demoWorld) begin(svc, path string) (cookie, state string) {
	r := w.send(demoReq{svc: svc, path: path})
	u, _ := url.Parse(r.location)
	return r.cookie, u.Query().Get("state")
}

// login logs in and returns the session cookie ("" if it failed).
func (w *demoWorld) login(svc, path, code string) string {
	cookie, state := w.begin(svc, path)
	r := w.send(demoReq{svc: svc, path: path + "/oidc/callback", cookie: cookie, code: code, state: state})
	if !strings.HasPrefix(r.cookie, "oidc-cookie") || r.location == "" {
		return ""
	}
	return r.cookie
}

var _ = fmt.Sprint
var _ = policy.JWT
