//go:build go1.21

package lib

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"reflect"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/gogo/protobuf/types"
	policy "istio.io/api/policy/v1beta1"
	corev1 "k8s.io/api/core/v1"
	kerrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/kubernetes/fake"
	typedcorev1 "k8s.io/client-go/kubernetes/typed/core/v1"
	"sync"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	apolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	store "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
	apistrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/api"
	webstrategy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// ---------------------------------------------------------------- Kubernetes secrets stand-in

// Kube is a Kubernetes API whose secrets live in memory and whose answers the explorer chooses.
type Kube struct {
	kubernetes.Interface
	mu      sync.Mutex
	Secrets map[string]*corev1.Secret
	// Fault may fail a call (verb "get"/"create"/..., key "namespace/name")
	Fault func(verb, key string) error
	Calls []string
}

var (
	baseOnce sync.Once
	baseKube kubernetes.Interface
)

// NewKube creates an empty cluster.
func NewKube() *Kube {
	baseOnce.Do(func() { baseKube = fake.NewSimpleClientset() })
	return &Kube{Interface: baseKube, Secrets: map[string]*corev1.Secret{}}
}

// CoreV1 implements kubernetes.Interface.
func (k *Kube) CoreV1() typedcorev1.CoreV1Interface {
	return &kubeCore{baseKube.CoreV1(), k}
}

type kubeCore struct {
	typedcorev1.CoreV1Interface
	k *Kube
}

func (c *kubeCore) Secrets(ns string) typedcorev1.SecretInterface {
	return &kubeSecrets{baseKube.CoreV1().Secrets(ns), c.k, ns}
}

type kubeSecrets struct {
	typedcorev1.SecretInterface
	k  *Kube
	ns string
}

func (s *kubeSecrets) call(verb, name string) error {
	if Point != nil {
		Point("kube " + verb)
	}
	key := s.ns + "/" + name
	s.k.mu.Lock()
	s.k.Calls = append(s.k.Calls, verb+" "+key)
	f := s.k.Fault
	s.k.mu.Unlock()
	if f != nil {
		return f(verb, key)
	}
	return nil
}

func (s *kubeSecrets) Get(name string, _ metav1.GetOptions) (*corev1.Secret, error) {
	if err := s.call("get", name); err != nil {
		return nil, err
	}
	s.k.mu.Lock()
	defer s.k.mu.Unlock()
	if v, ok := s.k.Secrets[s.ns+"/"+name]; ok {
		return v.DeepCopy(), nil
	}
	return nil, kerrors.NewNotFound(schema.GroupResource{Resource: "secrets"}, name)
}

func (s *kubeSecrets) Create(o *corev1.Secret) (*corev1.Secret, error) {
	lost := s.call("create", o.Name)
	if lost != nil && lost != ErrStoreThenFail {
		return nil, lost
	}
	s.k.mu.Lock()
	defer s.k.mu.Unlock()
	key := s.ns + "/" + o.Name
	if _, ok := s.k.Secrets[key]; ok {
		return nil, kerrors.NewAlreadyExists(schema.GroupResource{Resource: "secrets"}, o.Name)
	}
	c := o.DeepCopy()
	c.Namespace = s.ns
	s.k.Secrets[key] = c
	if lost != nil {
		return nil, lost
	}
	return c.DeepCopy(), nil
}

func (s *kubeSecrets) Update(o *corev1.Secret) (*corev1.Secret, error) {
	if err := s.call("update", o.Name); err != nil {
		return nil, err
	}
	s.k.mu.Lock()
	defer s.k.mu.Unlock()
	c := o.DeepCopy()
	c.Namespace = s.ns
	s.k.Secrets[s.ns+"/"+o.Name] = c
	return c.DeepCopy(), nil
}

func (s *kubeSecrets) Delete(name string, _ *metav1.DeleteOptions) error {
	if err := s.call("delete", name); err != nil {
		return err
	}
	s.k.mu.Lock()
	defer s.k.mu.Unlock()
	delete(s.k.Secrets, s.ns+"/"+name)
	return nil
}

// Put stores a secret directly.
func (k *Kube) Put(ns, name string, data map[string][]byte) {
	k.mu.Lock()
	k.Secrets[ns+"/"+name] = &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Data: data}
	k.mu.Unlock()
}

// CallLog returns the calls so far.
func (k *Kube) CallLog() []string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]string{}, k.Calls...)
}

// CookieSecret is the key of the cookie key secret.
const CookieSecret = "istio-system/appidentityandaccessadapter-cookie-sig-enc-keys"

// PutCookieKeys installs fixed cookie keys.
func (k *Kube) PutCookieKeys(seed byte) {
	h, b := make([]byte, 32), make([]byte, 16)
	for i := range h {
		h[i] = seed + byte(i)
	}
	for i := range b {
		b[i] = seed ^ byte(3*i)
	}
	p := strings.SplitN(CookieSecret, "/", 2)
	k.Put(p[0], p[1], map[string][]byte{"HASH_KEY": h, "BLOCK_KEY": b})
}

// ErrStoreThenFail makes a creation take effect although it is reported as failed.
var ErrStoreThenFail = errors.New("injected: timeout while waiting for the answer")

// ErrKube is the injected API error.
var ErrKube error = kerrors.NewInternalError(errors.New("injected"))

// ---------------------------------------------------------------- adapter assembly

// World is one adapter with its environment.
type World struct {
	Kube    *Kube
	Store   store.PolicyStore
	Handler handler.PolicyHandler
	Adapter *adapter.AppidAdapter
	Web     strategy.Strategy
}

// SharedWeb lets worlds reuse one web strategy where sessions do not matter.
var harnessErr error

// HarnessError reports an assembly failure, which is an error of the check and not a violation.
type HarnessError struct{ Msg string }

func (e HarnessError) Error() string { return e.Msg }

// NewStrategies builds the two strategies on a cluster.
func NewStrategies(k *Kube) (api, web strategy.Strategy) {
	return apistrategy.New(), webstrategy.New(config.NewConfig(), k)
}

// NewWorld assembles an adapter. web may be nil.
func NewWorld(k *Kube, web strategy.Strategy) *World {
	return NewWorldCfg(k, web, config.NewConfig())
}

// NewWorldCfg assembles an adapter with a configuration.
func NewWorldCfg(k *Kube, web strategy.Strategy, cfg *config.Config) *World {
	InitNet()
	if k == nil {
		k = NewKube()
	}
	if g := current(); g != nil {
		g.mu.Lock()
		g.kubes = append(g.kubes, k)
		g.mu.Unlock()
	}
	s := store.New()
	if web == nil {
		web = webstrategy.New(cfg, k)
	}
	eng, err := engine.New(s)
	if err != nil {
		panic(HarnessError{"engine.New: " + err.Error()})
	}
	return &World{Kube: k, Store: s, Handler: handler.New(s, k), Adapter: assemble(eng, apistrategy.New(), web), Web: web}
}

// assemble fills the adapter's fields by type, so that renamed fields do not matter.
func assemble(eng engine.PolicyEngine, api, web strategy.Strategy) *adapter.AppidAdapter {
	a := &adapter.AppidAdapter{}
	v := reflect.ValueOf(a).Elem()
	var done [3]bool
	set := func(i int, x interface{}, n int) {
		f := v.Field(i)
		reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(x))
		done[n] = true
	}
	for i := 0; i < v.NumField(); i++ {
		t, name := v.Type().Field(i).Type, strings.ToLower(v.Type().Field(i).Name)
		switch {
		case t.Kind() == reflect.Interface && t.NumMethod() == 0:
		case t.Kind() == reflect.Interface && reflect.TypeOf(eng).Implements(t) && !reflect.TypeOf(api).Implements(t):
			set(i, eng, 0)
		case t == reflect.TypeOf(api):
			set(i, api, 1)
		case t == reflect.TypeOf(web):
			set(i, web, 2)
		case t.Kind() == reflect.Interface && reflect.TypeOf(api).Implements(t):
			if strings.Contains(name, "web") || strings.Contains(name, "oidc") {
				set(i, web, 2)
			} else {
				set(i, api, 1)
			}
		}
	}
	if !done[0] || !done[1] || !done[2] {
		panic(HarnessError{fmt.Sprintf("cannot assemble the adapter: fields found %v", done)})
	}
	return a
}

// Req is one incoming request.
type Req struct {
	NS, Svc, Path, Method string
	Scheme, Host          string
	Auth, Cookies         string
	Code, Error, State    string
}

func (r Req) String() string {
	s := fmt.Sprintf("%s %s (service %s/%s)", r.Method, r.Path, r.NS, r.Svc)
	for _, x := range [][2]string{{"auth", r.Auth}, {"cookies", r.Cookies}, {"code", r.Code}, {"error", r.Error}, {"state", r.State}} {
		if x[1] != "" {
			v := x[1]
			if len(v) > 60 {
				v = v[:57] + "..."
			}
			s += " " + x[0] + "=" + v
		}
	}
	return s
}

// Msg builds the request message.
func (r Req) Msg() *authnz.HandleAuthnZRequest {
	scheme, host := r.Scheme, r.Host
	if scheme == "" {
		scheme = "https"
	}
	if host == "" {
		host = "app.test"
	}
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target: &authnz.TargetMsg{Namespace: r.NS, Service: r.Svc, Path: r.Path, Method: r.Method},
		Request: &authnz.RequestMsg{
			Scheme: scheme, Host: host, Path: r.Path,
			Headers: &authnz.HeadersMsg{Authorization: r.Auth, Cookies: r.Cookies},
			Params:  &authnz.QueryParamsMsg{Code: r.Code, Error: r.Error, State: r.State},
		},
	}}
}

// Result kinds.
const (
	KOK       = "OK"
	KRedirect = "REDIRECT"
	KDeny     = "DENY"
	KError    = "ERROR"
	KPanic    = "PANIC"
)

// Res is a classified answer.
type Res struct {
	Kind      string
	Status    int32 // rpc status
	HTTP      int   // direct response code
	Location  string
	SetCookie string
	WWW       string
	Headers   map[string]string
	Body      string
	Msg       string
	OutAuth   string
	OutCookie string
	Err       string
	Stack     string
}

func (r Res) String() string {
	s := fmt.Sprintf("%s status=%d http=%d", r.Kind, r.Status, r.HTTP)
	for _, x := range [][2]string{{"location", r.Location}, {"set-cookie", r.SetCookie}, {"www", r.WWW}, {"out", r.OutAuth}, {"err", r.Err}, {"msg", r.Msg}} {
		if x[1] != "" {
			v := x[1]
			if len(v) > 120 {
				v = v[:117] + "..."
			}
			s += " " + x[0] + "=" + v
		}
	}
	return s
}

// Cookie returns the name and value set by the answer.
func (r Res) Cookie() (name, value string) { return ParseSetCookie(r.SetCookie) }

// ParseSetCookie parses a Set-Cookie value.
func ParseSetCookie(s string) (string, string) {
	if s == "" {
		return "", ""
	}
	resp := http.Response{Header: http.Header{"Set-Cookie": {s}}}
	for _, c := range resp.Cookies() {
		return c.Name, c.Value
	}
	return "", ""
}

// Do sends a request through the adapter and classifies the answer.
func (w *World) Do(r Req) Res { return DoMsg(w.Adapter, r.Msg()) }

// DoMsg sends a raw message.
func DoMsg(a *adapter.AppidAdapter, m *authnz.HandleAuthnZRequest) (res Res) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(HarnessError); ok {
				panic(he)
			}
			res = Res{Kind: KPanic, Err: fmt.Sprint(p), Stack: string(debug.Stack())}
		}
	}()
	return DoBy(func(m *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) { return a.HandleAuthnZ(context.Background(), m) }, m)
}

// DoBy sends a message by call.
func DoBy(call func(*authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error), m *authnz.HandleAuthnZRequest) Res {
	var cookies map[string]bool
	g := current()
	if g != nil {
		cookies = g.request(m)
	}
	out, err := call(m)
	res := Classify(out, err)
	if g != nil {
		g.answer(m, out, res, cookies)
	}
	return res
}

// reuse describes an answer Mixer may give again to later requests without asking the adapter.
type reuse struct {
	status int32
	d      time.Duration
	n      int32
}

var reusable atomic.Pointer[reuse]

// Classify turns a response into a Res.
func Classify(out *authnz.HandleAuthnZResponse, err error) (res Res) {
	if err != nil {
		res = Res{Kind: KError, Err: err.Error()}
		if out != nil && out.Result != nil && out.Result.Status.Code == 0 {
			res.Msg = "response with OK status next to the error"
		}
		return
	}
	if out == nil || out.Result == nil {
		// the adapter client treats a missing result as an error
		return Res{Kind: KError, Err: "nil response"}
	}
	if v := out.Result; v.ValidDuration > 0 || v.ValidUseCount > 0 {
		reusable.CompareAndSwap(nil, &reuse{v.Status.Code, v.ValidDuration, v.ValidUseCount})
	}
	res.Status = out.Result.Status.Code
	res.Msg = out.Result.Status.Message
	if out.Output != nil {
		res.OutAuth, res.OutCookie = out.Output.Authorization, out.Output.SessionCookie
	}
	for _, d := range out.Result.Status.Details {
		var h policy.DirectHttpResponse
		if types.UnmarshalAny(d, &h) == nil {
			res.HTTP, res.Headers, res.Body = int(h.Code), h.Headers, h.Body
			for k, v := range h.Headers {
				switch strings.ToLower(k) {
				case "location":
					res.Location = v
				case "set-cookie":
					res.SetCookie = v
				case "www-authenticate":
					res.WWW = v
				}
			}
		}
	}
	switch {
	case res.Status == 0:
		res.Kind = KOK
	case res.HTTP >= 300 && res.HTTP < 400:
		res.Kind = KRedirect
	default:
		res.Kind = KDeny
	}
	return
}

// ---------------------------------------------------------------- custom resources

// Path builds a path entry.
func Path(exact, prefix, method string, pols ...v1.PathPolicy) v1.PathConfig {
	return v1.PathConfig{Exact: exact, Prefix: prefix, Method: method, Policies: pols}
}

// Pol builds a path policy.
func Pol(typ, cfg string, rules ...v1.Rule) v1.PathPolicy {
	return v1.PathPolicy{PolicyType: typ, Config: cfg, Rules: rules}
}

// Policy builds a Policy object for one service.
func Policy(ns, name, svc string, paths ...v1.PathConfig) *v1.Policy {
	return &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name},
		Spec: v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: svc, Paths: paths}}}}
}

// JwtConfig builds a JwtConfig.
func JwtConfig(ns, name, url string) *v1.JwtConfig {
	return &v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: v1.JwtConfigSpec{JwksURL: url}}
}

// OidcConfig builds an OidcConfig.
func OidcConfig(ns, name, clientID, discovery string) *v1.OidcConfig {
	return &v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name},
		Spec: v1.OidcConfigSpec{ClientID: clientID, DiscoveryURL: discovery, ClientSecret: "secret-" + clientID}}
}

// Set delivers an add/update event.
func (w *World) Set(obj interface{}) { w.Handler.HandleAddUpdateEvent(obj) }

// Del delivers a deletion event.
func (w *World) Del(t v1.CrdType, ns, name string) {
	w.Handler.HandleDeleteEvent(apolicy.CrdKey{Id: ns + "/" + name, CrdType: t})
}

// Expired tells whether a Set-Cookie value removes the cookie.
func Expired(s string) bool {
	resp := http.Response{Header: http.Header{"Set-Cookie": {s}}}
	for _, c := range resp.Cookies() {
		return c.MaxAge < 0 || (!c.Expires.IsZero() && c.Expires.Before(time.Now()))
	}
	return false
}

func ParseBasic(a string) (string, string, bool) {
	return (&http.Request{Header: http.Header{"Authorization": {a}}}).BasicAuth()
}
