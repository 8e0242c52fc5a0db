//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/initializer"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// C18, second part: the real initializer, informers, queues and controllers against an API server in this process.

var resources = map[string]v1.CrdType{"policies": v1.POLICY, "jwtconfigs": v1.JWTCONFIG, "oidcconfigs": v1.OIDCCONFIG}

type apiEvent struct {
	rv   int
	line []byte
}

// apiServer keeps the custom resources and serves list and watch.
type apiServer struct {
	mu      sync.Mutex
	cond    *sync.Cond
	srv     *httptest.Server
	rv      int
	objs    [3]map[string]interface{}
	log     [3][]apiEvent
	floor   [3]int // watches from an older version are answered 410 Gone
	epoch   [3]int // a new epoch ends the current watches
	lists   [3]int // failing list calls left
	closed  bool
	release func()
	gate    func(kind v1.CrdType, watch bool) int // may hold a call, and answer it with an error status
	secrets http.Handler                          // answers what is not about custom resources
}

func newAPIServer() *apiServer {
	s := &apiServer{rv: 10}
	s.cond = sync.NewCond(&s.mu)
	for i := range s.objs {
		s.objs[i] = map[string]interface{}{}
	}
	s.srv = httptest.NewServer(s)
	s.release = lib.Direct(strings.TrimPrefix(s.srv.URL, "http://"))
	return s
}

func (s *apiServer) close() {
	s.mu.Lock()
	s.closed = true
	s.cond.Broadcast()
	s.mu.Unlock()
	s.srv.CloseClientConnections()
	go func() { s.srv.Close(); s.release() }()
}

// stamp sets what an API server sets: versions, the generation (counting changes of one object) and the identity (new after a deletion).
func stamp(o interface{}, kind v1.CrdType, rv int, before interface{}) interface{} {
	m := o.(metav1.Object)
	m.SetResourceVersion(strconv.Itoa(rv))
	if before == nil {
		m.SetGeneration(1)
		m.SetUID(types.UID(fmt.Sprintf("uid-%d", rv)))
	} else if b := before.(metav1.Object); before != o {
		m.SetGeneration(b.GetGeneration() + 1)
		m.SetUID(b.GetUID())
	}
	tm := metav1.TypeMeta{APIVersion: "security.cloud.ibm.com/v1", Kind: kind.String()}
	switch x := o.(type) {
	case *v1.Policy:
		x.TypeMeta = tm
	case *v1.JwtConfig:
		x.TypeMeta = tm
	case *v1.OidcConfig:
		x.TypeMeta = tm
	}
	return o
}

func (s *apiServer) change(o kobj) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := int(o.kind)
	old, exists := s.objs[k][o.name]
	if o.variant == "" && !exists {
		return false
	}
	s.rv++
	typ, obj := "ADDED", interface{}(nil)
	switch {
	case o.variant == "":
		typ, obj = "DELETED", stamp(old, o.kind, s.rv, old)
		delete(s.objs[k], o.name)
	default:
		if exists {
			typ = "MODIFIED"
		}
		obj = stamp(o.build(), o.kind, s.rv, old)
		s.objs[k][o.name] = obj
	}
	b, _ := json.Marshal(map[string]interface{}{"type": typ, "object": obj})
	s.log[k] = append(s.log[k], apiEvent{s.rv, append(b, '\n')})
	s.cond.Broadcast()
	return true
}

// interrupt ends the watches of a kind; with gone, what happened since cannot be watched but only listed.
func (s *apiServer) interrupt(k v1.CrdType) {
	s.mu.Lock()
	s.epoch[k]++
	s.cond.Broadcast()
	s.mu.Unlock()
}

func (s *apiServer) gone(k v1.CrdType) {
	s.mu.Lock()
	s.floor[k] = s.rv
	s.mu.Unlock()
}

func (s *apiServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	k, ok := resources[parts[len(parts)-1]]
	w.Header().Set("Content-Type", "application/json")
	status := func(code int, reason string) {
		b, _ := json.Marshal(map[string]interface{}{"kind": "Status", "apiVersion": "v1", "status": "Failure", "reason": reason, "code": code})
		w.WriteHeader(code)
		_, _ = w.Write(b)
	}
	if !ok && s.secrets != nil {
		s.secrets.ServeHTTP(w, r)
		return
	}
	if !ok || r.Method != "GET" {
		status(404, "NotFound")
		return
	}
	if s.gate != nil {
		if code := s.gate(k, r.URL.Query().Get("watch") != ""); code != 0 {
			status(code, "InternalError")
			return
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.URL.Query().Get("watch") == "" {
		if s.lists[k] > 0 {
			s.lists[k]--
			status(500, "InternalError")
			return
		}
		items := []interface{}{}
		for _, o := range s.objs[k] {
			items = append(items, o)
		}
		b, _ := json.Marshal(map[string]interface{}{"kind": k.String() + "List", "apiVersion": "security.cloud.ibm.com/v1",
			"metadata": map[string]string{"resourceVersion": strconv.Itoa(s.rv)}, "items": items})
		_, _ = w.Write(b)
		return
	}
	since, _ := strconv.Atoi(r.URL.Query().Get("resourceVersion"))
	if since < s.floor[k] {
		status(410, "Gone")
		return
	}
	epoch := s.epoch[k]
	w.WriteHeader(200)
	fl := w.(http.Flusher)
	fl.Flush()
	for !s.closed && s.epoch[k] == epoch {
		var out [][]byte
		for _, e := range s.log[k] {
			if e.rv > since {
				out = append(out, e.line)
				since = e.rv
			}
		}
		if len(out) == 0 {
			s.cond.Wait()
			continue
		}
		s.mu.Unlock()
		for _, l := range out {
			_, _ = w.Write(l)
		}
		fl.Flush()
		s.mu.Lock()
	}
}

var kubeConfigMu sync.Mutex

func (s *apiServer) kubeconfig(dir string, n int) (string, error) {
	p := filepath.Join(dir, fmt.Sprintf("kubeconfig-%d", n))
	y := fmt.Sprintf("apiVersion: v1\nkind: Config\nclusters:\n- name: c\n  cluster:\n    server: %s\ncontexts:\n- name: x\n  context:\n    cluster: c\n    user: u\nusers:\n- name: u\n  user: {}\ncurrent-context: x\n", s.srv.URL)
	return p, os.WriteFile(p, []byte(y), 0o600)
}

// connect starts the adapter's own machinery against the server.
func (s *apiServer) connect(w *lib.World, dir string, n int) error {
	p, err := s.kubeconfig(dir, n)
	if err != nil {
		return err
	}
	kubeConfigMu.Lock()
	defer kubeConfigMu.Unlock()
	_ = os.Setenv("KUBECONFIG", p)
	_, err = initializer.New(w.Store)
	return err
}

// kubeStep is one step of a history.
type kubeStep struct {
	op  string // change, cut (a watch ends, then the change), gone (a watch ends and the change can only be listed), settle
	obj kobj
}

func (e kubeStep) String() string {
	switch e.op {
	case "cut":
		return "the watch breaks and meanwhile: " + e.obj.String()
	case "gone":
		return "the watch breaks, its version expires and meanwhile: " + e.obj.String()
	case "settle":
		return "the adapter catches up"
	case "lists fail":
		return "the next list calls fail"
	case "restart":
		return "the adapter restarts"
	}
	return e.obj.String()
}

var sentinels = []kobj{{v1.POLICY, "zz-sentinel", "/zzj /zzo!"}, {v1.JWTCONFIG, "zz-sentinel", "A"}, {v1.OIDCCONFIG, "zz-sentinel", "zz"}}

// settle waits until everything so far is processed: a generation of sentinel objects has become visible.
func (s *apiServer) settle(w *lib.World, gen int) bool { return s.settleBy(w.Do, gen) }

func (s *apiServer) settleBy(do func(lib.Req) lib.Res, gen int) bool {
	svc := fmt.Sprintf("zz%d", gen)
	cfg := svc
	s.put(lib.Policy("ns", "zz-sentinel", svc, lib.Path("/j", "", "ALL", lib.Pol("jwt", cfg)), lib.Path("/o", "", "ALL", lib.Pol("oidc", cfg))), v1.POLICY, "zz-sentinel")
	s.put(lib.JwtConfig("ns", cfg, cfgA.URL("jwks")), v1.JWTCONFIG, cfg)
	s.put(lib.OidcConfig("ns", cfg, "zz", cfgA.URL("disc")), v1.OIDCCONFIG, cfg)
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); time.Sleep(4 * time.Millisecond) {
		j := do(lib.Req{NS: "ns", Svc: svc, Method: "GET", Path: "/j"})
		o := do(lib.Req{NS: "ns", Svc: svc, Method: "GET", Path: "/o"})
		if j.Kind == lib.KDeny && o.Kind == lib.KRedirect {
			return true
		}
	}
	return false
}

func (s *apiServer) put(o interface{}, k v1.CrdType, name string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.rv++
	typ := "ADDED"
	old, ok := s.objs[k][name]
	if ok {
		typ = "MODIFIED"
	}
	s.objs[k][name] = stamp(o, k, s.rv, old)
	b, _ := json.Marshal(map[string]interface{}{"type": typ, "object": o})
	s.log[k] = append(s.log[k], apiEvent{s.rv, append(b, '\n')})
	s.cond.Broadcast()
}

// runKube runs one history. before: the number of steps that happen before the adapter starts.
func runKube(h []kubeStep, before int, dir string, n int) (string, bool) {
	s := newAPIServer()
	defer s.close()
	w := lib.NewWorld(polKube, polWeb)
	live := map[kobj]string{}
	gen := 0
	for i := 0; i <= len(h); i++ {
		if i == before {
			if err := s.connect(w, dir, n); err != nil {
				panic(lib.HarnessError{Msg: "initializer.New: " + err.Error()})
			}
		}
		if i == len(h) {
			break
		}
		e := h[i]
		switch e.op {
		case "settle":
			if i < before {
				return "", false
			}
			gen++
			if !s.settle(w, gen) {
				return fmt.Sprintf("40 seconds after %v new objects are still not in force", h[:i]), true
			}
			continue
		case "lists fail":
			s.mu.Lock()
			s.lists = [3]int{1, 1, 1}
			s.mu.Unlock()
			continue
		case "cut", "gone":
			if i < before {
				return "", false
			}
			s.mu.Lock()
			s.epoch[e.obj.kind]++
			s.mu.Unlock()
		}
		if !s.change(e.obj) {
			return "", false
		}
		id := e.obj
		id.variant = ""
		if e.obj.variant == "" {
			delete(live, id)
		} else {
			live[id] = e.obj.variant
		}
		if e.op == "gone" {
			s.gone(e.obj.kind)
		}
		if e.op != "change" {
			s.interrupt(e.obj.kind)
		}
	}
	gen++
	if !s.settle(w, gen) {
		return fmt.Sprintf("40 seconds after %v new objects are still not in force", h), true
	}
	want, got := expected(live), observe(w)
	for end := time.Now().Add(20 * time.Second); got != want && time.Now().Before(end); got = observe(w) {
		time.Sleep(10 * time.Millisecond)
	}
	if got != want {
		return fmt.Sprintf("after %v (the adapter started after %d of them) the decisions stay\n  %s\nbut for the objects of the cluster (%v) they should be\n  %s", h, before, got, live, want), true
	}
	return "", true
}

func kubeHistories(c *lib.Check) {
	P, J, O := v1.POLICY, v1.JWTCONFIG, v1.OIDCCONFIG
	ch := func(k v1.CrdType, name, variant string) kubeStep { return kubeStep{"change", kobj{k, name, variant}} }
	with := func(op string, e kubeStep) kubeStep { e.op = op; return e }
	settle := kubeStep{op: "settle"}
	dir, err := os.MkdirTemp("", "verif-kube-")
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	defer os.RemoveAll(dir)
	pa, pd, ja, jb, jd, oc, od := ch(P, "p", "/a /c*!"), ch(P, "p", ""), ch(J, "j", "A"), ch(J, "j", "B"), ch(J, "j", ""), ch(O, "o", "c1"), ch(O, "o", "")
	pb := ch(P, "p", "/b /c*")
	ev := []kubeStep{pa, pb, pd, ja, jb, jd, oc, ch(O, "o", "c2"), od, settle}
	type job struct {
		h      []kubeStep
		before int
	}
	var jobs []job
	var gen func(pre []kubeStep, evs []kubeStep, d int, befores func(n int) []int)
	gen = func(pre, evs []kubeStep, d int, befores func(n int) []int) {
		for _, b := range befores(len(pre)) {
			jobs = append(jobs, job{append([]kubeStep{}, pre...), b})
		}
		if d == 0 {
			return
		}
		for _, e := range evs {
			gen(append(append([]kubeStep{}, pre...), e), evs, d-1, befores)
		}
	}
	// every short history of changes, with the adapter started at the beginning, in the middle and at the end
	gen(nil, ev, c.Pick(3, 4), func(n int) []int { return []int{0, n}[:1+min(n, 1)] })
	// every object exists and is known; then watches break around further changes
	base := []kubeStep{pa, ja, oc, settle}
	var breaks []kubeStep
	for _, e := range []kubeStep{pb, pd, jb, jd, od, ch(O, "o", "c2")} {
		breaks = append(breaks, e, with("cut", e), with("gone", e))
	}
	breaks = append(breaks, settle, kubeStep{op: "lists fail"})
	gen(base, breaks, c.Pick(2, 3), func(n int) []int { return []int{0} })
	gen([]kubeStep{{op: "lists fail"}}, ev, 2, func(n int) []int { return []int{n} })
	total := 0
	var mu sync.Mutex
	lib.Parallel(len(jobs), 128, func(i int) {
		if c.Stop() {
			return
		}
		j := jobs[i]
		bad, on := runKube(j.h, j.before, dir, i)
		if !on {
			return
		}
		mu.Lock()
		total++
		mu.Unlock()
		c.Count("traces_validated_against_impl", 1)
		c.Count("api_server_histories", 1)
		c.Count("transitions", len(j.h))
		if bad != "" {
			var l []string
			for _, e := range j.h {
				l = append(l, e.String())
			}
			c.Violation("api-server", bad, map[string]interface{}{"model": "api server", "events": l, "started_after": j.before}, func() bool {
				b, _ := runKube(j.h, j.before, dir, i)
				return b != ""
			})
		}
	})
	c.Cap(fmt.Sprintf("API server histories: %d changes, or %d changes around broken watches", c.Pick(3, 4), c.Pick(2, 3)))
}
